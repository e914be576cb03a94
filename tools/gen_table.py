"""Rewrites the table of seeded changes at the end of DESIGN.md."""
import glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
 "C18-stack-grows": "first missed; growth over lengths 4^k",
 "C18-shift-down": "first missed; string functions counted, growth over lengths 4^k",
 "C05-one-copy": "first missed; mode `layouts`",
 "C12-float-count": "first missed; mode `ambient`",
 "C12-env-debug": "first missed; mode `ambient`",
 "C16-bit-count": "first missed; mode `san_huge`",
 "C17-depth-three": "first missed; `tower`",
 "C19-lrand48": "first missed; lrand48 state compared",
 "C19-unbuffered": "first missed; stream buffering compared",
 "C08-page-tail": "first missed; mode `touch`",
 "C10-word-packets": "first missed; packets of the threads interleaved",
 "C09-sched-ring": "first missed; mode `aging`",
 "C12-order": "first missed; mode `neighbours`",
 "C13-assert-effect": "first missed; -DNDEBUG configurations",
 "C18-registry": "first missed; `steps` with 40000 contexts",
 "C01-memo-half-block": "first missed; `views` (two payload views) added to C01/C03",
 "C01-stream-pairs": "first missed; single-packet lengths run inside C01 (`lens_single`)",
 "C03-skip-uniform": "first missed; `twokinds`, `views`",
 "C11-leak-empty": "first missed; mode `leak`",
 "C16-empty-shift": "first missed; `san` now takes every number of packets",
 "C15-df-long": "first missed; payloads up to 1 MB",
 "C19-atexit": "first missed; exit and fork handlers are noticed",
 "C17-third-block": "first missed; `reent what=long`",
 "C17-full-batch": "first missed; `reent full=1`",
}
EXTRA = {}
p = os.path.join(V, "tools/caught.json")
if os.path.exists(p):
    EXTRA = json.load(open(p))
rows = ["| change | what it does | caught by |", "|---|---|---|"]
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    by = EXTRA.get(i, d["property"])
    if i in MISSED: by += " (" + MISSED[i] + ")"
    rows.append("| %s | %s | %s |" % (i, d["what_it_breaks"].replace("|", "/"), by))
s = open(V + "/DESIGN.md").read()
s = s[:s.index("## Seeded changes")] + "## Seeded changes\n\nMade by tools/mkseeds.py from tools/seeds, each confirmed (demonstration passes without it, fails with it; all\n119 tests pass).  `caught by` names the checks run against it that report it (at least its own property's).\n\n" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
