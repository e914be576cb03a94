#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from tools/seeds/*.seed.py.

Each spec calls seed(id, property, needs, breaks, edits=[(file, old, new[, count])], demo=C text, ...).
"""
import glob, json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "tools/seeds")
OUT = os.path.join(V, "seeded")

SH = r'''#!/bin/bash
# Exit 0: the property holds in what this shows. Run in the repository, built.
H=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 0; trap 'rm -rf "$T"' EXIT
for c in @CFGS@; do
  cc=gcc; emu=
  case $c in
    *aarch64*) cc=aarch64-linux-gnu-gcc; emu='qemu-aarch64 -L /usr/aarch64-linux-gnu' ;;
    *ppc64*) cc=powerpc64-linux-gnu-gcc; emu='qemu-ppc64 -L /usr/powerpc64-linux-gnu' ;;
    avx2*) grep -qw avx2 /proc/cpuinfo || emu='qemu-x86_64 -cpu max' ;;
  esac
@BODY@
done
exit 0
'''
LINK = r'''  $cc -O1 -g -D_GNU_SOURCE -I src -I "$H" "$H/demo.c" "$H/ref.c" @FLAGS@ _build/$c/src/.libs/libdvbcsa.a -lpthread -o "$T/demo" || exit 1
  @ENV@ timeout 250 $emu "$T/demo" || { echo "in configuration $c"; exit 1; }'''
SRC = r'''  @CC@
  case $c in *uint32*) skip=dvbcsa_bs_transpose_stream.c ;; *) skip=dvbcsa_bs_transpose_stream32.c ;; esac
  m=; case $c in mmx*) m=-mmmx ;; sse2*) m=-msse2 ;; ssse3*) m=-mssse3 ;; avx2*) m=-mavx2 ;; esac
  $cc -w @FLAGS@ $m -D_GNU_SOURCE -I _build/$c -I src -I "$H" "$H/demo.c" "$H/ref.c" \
    $(ls src/*.c | grep -v "/$skip\$") -lpthread -o "$T/demo" || exit 1
  @ENV@ timeout 250 $emu "$T/demo" || { echo "in configuration $c"; exit 1; }'''

only = sys.argv[1:]


def seed(id, prop, needs, breaks, edits, demo, cfgs="default", src=None, flags="", env="", cc=""):
    if only and id not in only:
        return
    d = os.path.join(OUT, id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    wt = "/tmp/mkseed-wt"
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(wt)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (wt, wt), shell=True, check=True)
    for e in edits:
        f, old, new = e[:3]
        p = os.path.join(wt, "src", f)
        t = open(p).read()
        n = t.count(old)
        if n != (e[3] if len(e) > 3 else 1):
            sys.exit("%s: %d matches in %s of %r" % (id, n, f, old))
        open(p, "w").write(t.replace(old, new))
    with open(os.path.join(d, "patch.diff"), "w") as f:
        subprocess.run(["git", "-C", wt, "diff"], stdout=f, check=True)
    shutil.rmtree(wt)
    body = (SRC if src is not None else LINK).replace("@FLAGS@", flags + (" " + src if src else "")).replace("@ENV@", env).replace("@CC@", cc or ":")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(SH.replace("@CFGS@", cfgs).replace("@BODY@", body))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "demo.c"), "w") as f:
        f.write('#include "h.h"\n' + demo.strip("\n") + "\n")
    for x in ("ref.c", "ref.h"):
        shutil.copy(os.path.join(V, "mc", x), d)
    shutil.copy(os.path.join(S, "h.h"), d)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print(id)


for p in sorted(glob.glob(os.path.join(S, "*.seed.py"))):
    exec(compile(open(p).read(), p, "exec"))
