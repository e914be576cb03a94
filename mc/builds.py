"""Building the library configurations and the explorer from /repo's working tree."""
import hashlib, os, re, subprocess, threading
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("MC_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
WORK = os.environ.get("MC_WORK", os.path.join(os.path.dirname(HERE), "build"))

REAL = "-Wall -D_XOPEN_SOURCE=600 -O3 -funroll-loops -fomit-frame-pointer -fno-tree-vectorize".split()
DEBUG = "-DDVBCSA_DEBUG -D_XOPEN_SOURCE=600 -g".split()
MFLAGS = {"MMX": ["-mmmx"], "SSE": ["-msse", "-msse2"], "SSSE3": ["-mssse3"], "AVX2": ["-mavx2"]}
WIDTH = {"UINT32": 32, "UINT64": 64, "MMX": 64, "SSE": 128, "SSSE3": 128, "NEON": 128, "AVX2": 256}
ARCH = {
    # cc, emulator, big endian, sizeof long
    "x86": ("gcc", [], False, 8),
    "aarch64": ("aarch64-linux-gnu-gcc", ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"], False, 8),
    "ppc64": ("powerpc64-linux-gnu-gcc", ["qemu-ppc64", "-L", "/usr/powerpc64-linux-gnu"], True, 8),
    "ppc32": ("powerpc-linux-gnu-gcc", ["qemu-ppc", "-L", "/usr/powerpc-linux-gnu"], True, 4),
}


def has_avx2():
    try:
        return " avx2 " in open("/proc/cpuinfo").read().replace("\n", " ")
    except OSError:
        return False


class Config:
    def __init__(self, name, method, arch="x86", alt=False, cc=None, flags=None, extra=(), drop=(), optional=False):
        self.name, self.method, self.arch, self.alt = name, method, arch, alt
        self.cc = cc or ARCH[arch][0]
        self.flags = list(REAL if flags is None else flags)
        self.extra = list(extra)
        self.drop = set(drop)
        self.optional = optional
        self.width = WIDTH[method]

    def emulator(self):
        if self.method == "AVX2" and not has_avx2():
            return ["qemu-x86_64", "-cpu", "max"]
        return ARCH[self.arch][1]

    def emulated(self):
        return bool(self.emulator())

    def defines(self):
        _, _, big, lsz = ARCH[self.arch]
        d = {"DVBCSA_ENDIAN_BIG" if big else "DVBCSA_ENDIAN_LITTLE": "1", "DVBCSA_USE_" + self.method: "1",
             "HAVE_ATTRIBUTE_MAY_ALIAS": "1", "HAVE_POSIX_MEMALIGN": "1", "HAVE_MM_MALLOC": "1",
             "LT_OBJDIR": '".libs/"', "PACKAGE": '"libdvbcsa"', "PACKAGE_BUGREPORT": '""', "PACKAGE_NAME": '"libdvbcsa"',
             "PACKAGE_STRING": '"libdvbcsa 1.1.0"', "PACKAGE_TARNAME": '"libdvbcsa"', "PACKAGE_URL": '""',
             "PACKAGE_VERSION": '"1.1.0"', "SIZEOF_LONG": str(lsz), "STDC_HEADERS": "1", "VERSION": '"1.1.0"'}
        for h in "ASSERT DLFCN INTTYPES STDINT STDIO STDLIB STRINGS STRING SYS_STAT SYS_TYPES UNISTD".split():
            d["HAVE_%s_H" % h] = "1"
        if self.arch in ("aarch64", "ppc32"):
            del d["HAVE_MM_MALLOC"]
        if self.cc.startswith("clang"):
            d.pop("HAVE_ATTRIBUTE_MAY_ALIAS")
        if self.alt:
            d["DVBCSA_USE_ALT_SBOX"] = "1"
        for x in self.drop:
            d.pop(x, None)
        if ARCH[self.arch][2]:
            d["WORDS_BIGENDIAN"] = "1"
        return d

    def cflags(self):
        f = self.flags + MFLAGS.get(self.method, []) + self.extra
        if self.cc.startswith("clang"):
            f = f + ["-fno-strict-aliasing"]
        return f


CONFIGS = {}


def _c(*a, **k):
    c = Config(*a, **k)
    CONFIGS[c.name] = c


# the configurations the project's own build system makes here
_c("default", "UINT64")
_c("default-altsbox", "UINT64", alt=True)
_c("uint32", "UINT32")
_c("mmx", "MMX")
_c("sse2", "SSE")
_c("sse2-altsbox", "SSE", alt=True)
_c("ssse3", "SSSE3")
_c("avx2", "AVX2")
_c("avx2-altsbox", "AVX2", alt=True)
_c("neon-aarch64", "NEON", "aarch64")
_c("neon-aarch64-altsbox", "NEON", "aarch64", alt=True)
_c("uint64-ppc64be", "UINT64", "ppc64")
_c("uint64-ppc64be-altsbox", "UINT64", "ppc64", alt=True)
_c("uint32-ppc64be", "UINT32", "ppc64")
OFFICIAL = list(CONFIGS)
NATIVE = [n for n in OFFICIAL if CONFIGS[n].arch == "x86"]
EMULATED = [n for n in OFFICIAL if CONFIGS[n].arch != "x86"]
# others it can make
_c("uint32-altsbox", "UINT32", alt=True)
_c("mmx-altsbox", "MMX", alt=True)
_c("ssse3-altsbox", "SSSE3", alt=True)
_c("uint32-ppc64be-altsbox", "UINT32", "ppc64", alt=True)
_c("uint64-ppc32be", "UINT64", "ppc32", optional=True)
_c("uint32-ppc32be", "UINT32", "ppc32", optional=True)
_c("uint32-ppc32be-altsbox", "UINT32", "ppc32", alt=True, optional=True)
_c("uint64-aarch64", "UINT64", "aarch64")
_c("uint32-aarch64-altsbox", "UINT32", "aarch64", alt=True)
for n in ("default", "default-altsbox", "uint32", "sse2", "ssse3", "avx2", "mmx"):
    c = CONFIGS[n]
    _c(n + "-debug", c.method, alt=c.alt, flags=DEBUG)
    _c(n + "-clang", c.method, alt=c.alt, cc="clang", optional=True)
_c("avx2-altsbox-clang", "AVX2", alt=True, cc="clang", optional=True)
_c("sse2-altsbox-clang", "SSE", alt=True, cc="clang", optional=True)
_c("mmx-altsbox-clang", "MMX", alt=True, cc="clang", optional=True)
_c("mmx-clang-O0", "MMX", cc="clang", flags=DEBUG, optional=True)
# the other code path of the transposition for i386
_c("default-i386path", "UINT64", extra=["-D__i386__"], optional=True)
_c("sse2-i386path", "SSE", extra=["-D__i386__"], optional=True)
# without assertions; for size; unoptimised; optimised across files, with vectorisation
for n in ("default", "uint32", "mmx", "sse2-altsbox", "ssse3", "avx2"):
    c = CONFIGS[n]
    _c(n + "-ndebug", c.method, alt=c.alt, flags=REAL + ["-DNDEBUG"])
    _c(n + "-Os", c.method, alt=c.alt, flags=["-Wall", "-D_XOPEN_SOURCE=600", "-Os"])
_c("default-lto", "UINT64", flags=["-Wall", "-D_XOPEN_SOURCE=600", "-O3", "-flto"], optional=True)
_c("uint32-vect", "UINT32", flags=["-Wall", "-D_XOPEN_SOURCE=600", "-O3", "-ftree-vectorize", "-fstrict-aliasing", "-msse4.1"], optional=True)
_c("default-vect", "UINT64", flags=["-Wall", "-D_XOPEN_SOURCE=600", "-O3", "-ftree-vectorize", "-msse4.2"], optional=True)
_c("default-clang-Oz", "UINT64", cc="clang", flags=["-Wall", "-D_XOPEN_SOURCE=600", "-Oz"], optional=True)
_c("default-noassert", "UINT64", drop=["HAVE_ASSERT_H"])
_c("neon-aarch64-ndebug", "NEON", "aarch64", flags=REAL + ["-DNDEBUG"])
# allocator back ends
for n in ("default", "sse2", "avx2", "uint32"):
    c = CONFIGS[n]
    _c(n + "-memalign", c.method, drop=["HAVE_MM_MALLOC"])
    if n != "avx2":
        _c(n + "-malloc", c.method, drop=["HAVE_MM_MALLOC", "HAVE_POSIX_MEMALIGN"])
_c("neon-aarch64-malloc", "NEON", "aarch64", drop=["HAVE_POSIX_MEMALIGN"])
# the chaining code alone over cheap stand-ins for the ciphers (stubs.c)
_c("default-stub", "UINT64", optional=True)
UBSAN = ["-fsanitize=undefined", "-fsanitize-undefined-trap-on-error"]
_c("default-ubsan-stub", "UINT64", optional=True, extra=["-O2"] + UBSAN)
_c("default-ubsan-trap", "UINT64", extra=["-O2"] + UBSAN)
# sanitizers
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer", "-g", "-O1"]
GATHER = ["-include", os.path.join(HERE, "gather_check.h")]
for n in NATIVE + ["uint32-altsbox", "mmx-altsbox", "ssse3-altsbox"]:
    c = CONFIGS[n]
    _c(n + "-san", c.method, alt=c.alt, flags=["-Wall", "-D_XOPEN_SOURCE=600"], extra=SAN + (GATHER if c.method == "AVX2" else []))
for n in EMULATED:
    c = CONFIGS[n]
    _c(n + "-trap", c.method, c.arch, alt=c.alt, flags=["-Wall", "-D_XOPEN_SOURCE=600", "-O1"],
       extra=["-fsanitize=undefined", "-fsanitize-undefined-trap-on-error"])
# builds that report each basic block entered (bound.c)
for n in OFFICIAL:
    c = CONFIGS[n]
    _c(n + "-steps", c.method, c.arch, alt=c.alt, extra=["-O1", "-fsanitize-coverage=trace-pc"] + ["-U_FORTIFY_SOURCE"] + ["-D%s=mcs_%s" % (f, f) for f in ("memcpy", "memmove", "memset", "memcmp")])
# access-instrumented builds for the thread scheduler
TSAN = ["-U_FORTIFY_SOURCE", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "-g", "-fno-builtin-memcpy", "-fno-builtin-memset",
        "-fno-builtin-memmove"]
for n in NATIVE:
    c = CONFIGS[n]
    _c(n + "-sched", c.method, alt=c.alt, extra=TSAN + (GATHER if c.method == "AVX2" else []))
# the same for touch.c
for n in OFFICIAL:
    c = CONFIGS[n]
    _c(n + "-touch", c.method, c.arch, alt=c.alt, extra=TSAN + (GATHER if c.method == "AVX2" else []) + ["-D%s=mc_%s" % (f, f) for f in ("memcpy", "memmove", "memset", "memcmp")])


def sources(method):
    try:
        t = open(os.path.join(REPO, "src/Makefile.am")).read()
        t = t.replace("\\\n", " ")
        m = re.search(r"libdvbcsa_la_SOURCES\s*=([^\n]*)", t)
        s = [x for x in m.group(1).split() if x.endswith(".c")]
        m32 = re.search(r"if TRANSPOSE_32\s*\nlibdvbcsa_la_SOURCES\s*\+=([^\n]*)\nelse\s*\nlibdvbcsa_la_SOURCES\s*\+=([^\n]*)\nendif", t)
        s += [x for x in m32.group(1 if method == "UINT32" else 2).split() if x.endswith(".c")]
        if all(os.path.exists(os.path.join(REPO, "src", x)) for x in s):
            return s
    except (OSError, AttributeError):
        pass
    skip = "dvbcsa_bs_transpose_stream.c" if method == "UINT32" else "dvbcsa_bs_transpose_stream32.c"
    return sorted(x for x in os.listdir(os.path.join(REPO, "src")) if x.endswith(".c") and x != skip)


_tree_hash = None


def tree_hash():
    """Contents of everything the library is built from."""
    global _tree_hash
    if _tree_hash is None:
        h = hashlib.sha256()
        for root, dirs, files in os.walk(os.path.join(REPO, "src")):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h", ".inc", ".am")):
                    p = os.path.join(root, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
        _tree_hash = h.hexdigest()
    return _tree_hash


class BuildError(Exception):
    pass


pool = ThreadPoolExecutor(max_workers=os.cpu_count() or 4)


def run(cmd, cwd=None):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stdout[-3000:]))
    return r.stdout


def key_of(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(repr(p).encode())
    return h.hexdigest()[:16]


def lib_start(cfg):
    """Start compiling one configuration; returns a function waiting for the .so path."""
    hdr = "".join("#define %s %s\n" % kv for kv in sorted(cfg.defines().items()))
    stub = cfg.name.endswith("-stub")
    extra_files = [open(os.path.join(HERE, x)).read() for x in (("stubs.c", "stubfn.h") if stub else ())]
    extra_files += [open(x).read() for x in cfg.extra if x.startswith(HERE)]
    k = key_of(tree_hash(), cfg.cc, cfg.cflags(), hdr, extra_files, 4)
    d = os.path.join(WORK, "lib", cfg.name + "-" + k)
    so = os.path.join(d, "lib.so")
    if os.path.exists(so):
        return lambda: so
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    with open(os.path.join(tmp, "config.h"), "w") as f:
        f.write(hdr)
    srcs = ["dvbcsa_algo.c", os.path.join(HERE, "stubs.c")] if stub else sources(cfg.method)
    base = [cfg.cc, "-DHAVE_CONFIG_H", "-I" + tmp, "-I" + HERE, "-I" + os.path.join(REPO, "src")] + cfg.cflags() + ["-w", "-fPIC"]
    futs = [pool.submit(run, base + ["-c", os.path.join(REPO, "src", s), "-o", os.path.join(tmp, os.path.basename(s)[:-2] + ".o")]) for s in srcs]

    def wait():
        if os.path.exists(so):
            return so
        for f in futs:
            f.result()
        link = [cfg.cc, "-shared", "-Wl,-Bsymbolic", "-Wl,-z,now", "-Wl,-z,norelro", "-o", os.path.join(tmp, "lib.so")]
        if stub:
            link += ["-Wl,--no-undefined"]
        if cfg.name.endswith("-san"):
            link += ["-fsanitize=address,undefined"]
        if cfg.name.endswith(("-sched", "-steps", "-touch")):
            link += ["-Wl,--unresolved-symbols=ignore-all"]
        run(link + [os.path.join(tmp, os.path.basename(s)[:-2] + ".o") for s in srcs])
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.exists(so):
                raise
        return so
    return wait


HARNESS = ["core.c", "value.c", "geom.c", "env.c", "hist.c", "alloc.c", "reent.c", "bound.c", "touch.c", "ambient.c", "abandon.c", "ref.c"]


def exe_start(kind):
    """kind: an architecture, 'san' or 'sched'."""
    arch = kind if kind in ARCH else "x86"
    cc = ARCH[arch][0]
    srcs = ["conc.c", "ref.c"] if kind == "sched" else HARNESS
    flags = ["-O2", "-g", "-std=gnu11", "-rdynamic"]
    libs = ["-ldl", "-lpthread", "-lm"]
    if kind == "san":
        flags += ["-DMC_SAN", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    if kind == "cov":
        flags += ["-DREF_COV"]
    text = [open(os.path.join(HERE, f)).read() for f in sorted(set(srcs) | {"mc.h", "ref.h", "stubfn.h"})]
    inc = open(os.path.join(REPO, "src/dvbcsa/dvbcsa.h")).read()
    k = key_of(text, inc, cc, flags, 2)
    d = os.path.join(WORK, "exe", kind + "-" + k)
    out = os.path.join(d, "mc")
    if os.path.exists(out):
        return lambda: out
    tmp = d + ".tmp%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    futs = [pool.submit(run, [cc] + flags + ["-I" + HERE, "-I" + os.path.join(REPO, "src"), "-c", os.path.join(HERE, s), "-o", os.path.join(tmp, s[:-2] + ".o")])
            for s in srcs]

    def wait():
        if os.path.exists(out):
            return out
        for f in futs:
            f.result()
        run([cc] + flags + [os.path.join(tmp, s[:-2] + ".o") for s in srcs] + ["-o", os.path.join(tmp, "mc")] + libs)
        try:
            os.rename(tmp, d)
        except OSError:
            if not os.path.exists(out):
                raise
        return out
    return wait


def table(exe, what, seed):
    text = [open(os.path.join(HERE, f)).read() for f in ("ref.c", "ref.h", "core.c", "mc.h")]
    d = os.path.join(WORK, "tab")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "%s-%s" % (what, key_of(text, seed)))
    if os.path.exists(out):
        return out
    tmp = out + ".tmp%d" % os.getpid()
    n = 8
    list(pool.map(lambda i: run([exe, "mode=gen", "what=" + what, "out=" + tmp, "shards=%d" % n, "shard=%d" % i, "seed=%d" % seed]), range(n)))
    os.rename(tmp, out)
    return out


def literals():
    """Numbers written in the library's sources, tables of them left out."""
    v = set()
    for root, dirs, files in os.walk(os.path.join(REPO, "src")):
        for f in files:
            if f.endswith((".c", ".h", ".inc")):
                t = open(os.path.join(root, f), errors="replace").read()
                t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S)
                for l in t.splitlines():
                    l = re.sub(r"//.*", "", l)
                    ls = re.findall(r"\b(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*\b", l)
                    if len(ls) > 6 or re.match(r"^[\s{},]*((DV\w*\()?[-\s]*(0[xX][0-9a-fA-F]+|[0-9]+)[uUlL]*\)?[\s{},]*)+;?\s*$", l):
                        continue
                    for a, op, b in re.findall(r"\b(\d+)[uUlL]*\s*(<<|\*|\+)\s*(\d+)[uUlL]*\b", l):
                        if op != "<<" or int(b) < 64:
                            v.add(int(a) << int(b) if op == "<<" else int(a) * int(b) if op == "*" else int(a) + int(b))
                    v.update(int(x, 8 if re.match(r"0[0-7]+$", x) else 0 if x[:2] in ("0x", "0X") else 10) for x in ls)
    return sorted(x for x in v if 1 < x < 1 << 64)


def dictionary():
    v = literals()[:512]
    text = "\n".join(map(str, v)) + "\n"
    d = os.path.join(WORK, "tab")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, "dict-" + key_of(text))
    if not os.path.exists(out):
        with open(out + ".tmp%d" % os.getpid(), "w") as f:
            f.write(text)
        os.replace(out + ".tmp%d" % os.getpid(), out)
    return out
