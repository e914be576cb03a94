"""What each property's check explores: jobs per property and tier."""
import builds as B

N, E, ALL = B.NATIVE, B.EMULATED, B.OFFICIAL
PROPS = ["C%02d" % i for i in range(1, 21)]
BE = "uint64-ppc64be"


def J(cfg, mode, shards=1, **a):
    return dict(cfg=cfg, mode=mode, shards=shards, **a)


def each(cfgs, mode, shards=1, **a):
    return [J(c, mode, shards, **a) for c in cfgs]


def cov():
    return [J("default", "cov", 1, kind="cov", ustep=8)]


def c01(t):
    q = t == "quick"
    j = []
    j += [J(BE, "single_pairs", 8, ustep=1 if not q else 2), J("default", "single_oa3", 16, words=1 << 24)]
    j += [J("default", "single_pairs", 8), J("default", "single_special", 8), J("default", "single_bits2", 2)]
    j += [J(BE, "single_special", 4, ncw=6 if q else 24, nlens=4 if q else 7), J(BE, "single_bits2", 4)]
    j += each([c for c in N if c != "default"], "single_pairs", 1, ustep=16 if q else 1) + each(N, "dict", 1) + each(E, "dict", 2, nbg=1 if q else 3)
    j += each([c for c in E if c != BE], "single_pairs", 2, ustep=32 if q else 2)
    j += each(N, "views", 2, bs=0, nkeys=1 if q else 12, pstep=3 if q else 1) + [J("default", "views", 4, bs=0, nkeys=3 if q else 12)] + each(E, "views", 2, bs=0, pstep=7 if q else 1, nkeys=1 if q else 4)
    j += [J("default", "lens_single", 4, maxpow=14, dense=700), J(BE, "lens_single", 2, maxpow=12, dense=300)]
    if not q:
        j += [J("default", "single_oa3", 16, len=24), J("default", "single_oa3", 16, len=9), J("default", "single_oa3", 16, len=8),
              J(BE, "single_oa3", 16, words=1 << 21), J("neon-aarch64", "single_oa3", 8, words=1 << 20),
              J("default", "single_pairs", 8, seed=2), J("default", "single_pairs", 8, seed=3)]
    return j + cov()


def c02(t):
    q = t == "quick"
    j = []
    for f in ("single", "bs"):
        j += each(E, "keys", 2, what="oa2", flavour=f, limit=8192 if q else 65536)
        j += each(E, "keys", 1, what="special", flavour=f, limit=4096 if q else 1 << 30)
        j += each(["default"] if q else N, "keys", 8, what="oa3", flavour=f, limit=1 << (24 if f == "single" or not q else 22))
        j += each(["uint32"] if q else [], "keys", 4, what="oa3", flavour=f, limit=1 << 19)
        j += each(N, "keys", 1, what="oa2", flavour=f)
        j += each(N, "keys", 1, what="special", flavour=f)
        j += each(["default"], "keys", 1, what="special", flavour=f, len=29)
    j += each(ALL, "key_flip", 1) + each(N, "dict", 1) + each(E, "dict", 2, nbg=1 if q else 3)
    return j + cov()


def c03(t):
    q = t == "quick"
    j = each(E, "bs_pairs", 2, ustep=16 if q else 1)
    j += each(E, "mix", 4, smax=2 if q else 8, step=5 if q else 1, cmp=1)
    j += each(N, "mix", 2 if q else 8, smax=4 if q else 184, cmp=1)
    j += each(N, "views", 4, nkeys=2 if q else 12) + each(E, "views", 2, pstep=7 if q else 1, nkeys=1 if q else 4)
    j += each(N, "layouts", 1, step=5 if q else 1)
    j += each(N, "twokinds", 2, step=2 if q else 1) + each(E, "twokinds", 2, step=17 if q else 3)
    j += each(N, "bs_pairs", 2, ustep=1) + each(N, "dict", 1) + each(E, "dict", 2, nbg=1 if q else 3)
    return j


def c04(t):
    q = t == "quick"
    j = each(E, "roundtrip", 2, what="len", step=37 if q else 3)
    j += each(N, "roundtrip", 2, what="len", step=7 if q else 1)
    j += each(N, "roundtrip", 1, what="content", step=16 if q else 1)
    j += each(["default", "default-altsbox"], "roundtrip", 4, what="content", step=2 if q else 1)
    j += each(E, "roundtrip", 1, what="content", step=64 if q else 8)
    j += each(["default", BE], "roundtrip", 2, what="single", max=1100 if q else 6000)
    return j


def c05(t):
    q = t == "quick"
    j = each(E, "batch", 4, step=8 if q else 1, np=4 if q else 7, nm=2 if q else 3)
    j += each(E, "slotpairs", 2, step=9 if q else 1)
    j += each(N, "batch", 4, nm=3 if q else 5)
    j += each(N, "slotpairs", 2)
    j += each(N, "layouts", 1, step=3 if q else 1)
    j += each(N, "twokinds", 2) + each(E, "twokinds", 2, step=11 if q else 1)
    j += each(N, "related", 4, jstep=3 if q else 1) + each(E, "related", 4, step=11 if q else 2, jstep=7 if q else 2)
    j += [J(c, "batchsize", 1, want=B.CONFIGS[c].width) for c in ALL]
    return j


def c06(t):
    q = t == "quick"
    j = each(E, "maxlen", 4, step=25 if q else 5, nstr=1 if q else 2, slotstep=40 if q else 16, emstep=40 if q else 8)
    j += each(N, "maxlen", 4, step=2 if q else 1, nstr=2 if q else 4, slotstep=16 if q else 3)
    j += each(["default"], "maxlen", 2, step=1, top=600, nstr=2)
    j += each(ALL, "longpkt", 1)
    return j


def c07(t):
    q = t == "quick"
    big = (1 << 31) + 24
    j = [J("default", "lens_huge", 1, hugelen=big, dir="enc", hang=3000, soft=720), J("default", "lens_huge", 1, hugelen=big + 3, dir="dec", hang=3000, soft=720)]
    if not q:
        for ln in ((1 << 32) - 1, (1 << 32) - 8, (1 << 31) - 1):
            for d in ("enc", "dec"):
                j.append(J("default", "lens_huge", 1, hugelen=ln, dir=d, hang=9000))
    j += [J("default-stub", "lens_stub", 4, all=0 if q else 1, hang=3000)]
    j += [J("default", "lens_single", 8, maxpow=20 if q else 24, dense=2200 if q else 20000)]
    j += [J(BE, "lens_single", 4, maxpow=16 if q else 18, dense=600 if q else 4200), J("neon-aarch64", "lens_single", 2, maxpow=16, dense=300)]
    j += each([c for c in N if c != "default"], "lens_single", 1, maxpow=16, dense=400)
    return j


def c08(t):
    q = t == "quick"
    j = each(E, "guard_bs", 2, step=24 if q else 4, mstep=24 if q else 8)
    j += each(E, "guard_single", 1, max=260 if q else 520)
    j += each(E, "guard_key", 1)
    j += each(N, "guard_bs", 2, step=2 if q else 1, mstep=24 if q else 8)
    j += each(N, "guard_single", 1, max=520 if q else 2000)
    j += each(N, "guard_key", 1)
    j += each([c + "-touch" for c in N], "touch", 2) + each([c + "-touch" for c in E], "touch", 2, step=5 if q else 1, mstep=24 if q else 8, nstep=4 if q else 1)
    return j


def c09(t):
    q = t == "quick"
    j = each(N, "hist_bfs", 1, time=60 if q else 1800)
    j += each(N, "hist_bfs", 1, nsctx=1, nbctx=1, hints=0, time=60 if q else 600)
    j += each(E, "hist_bfs", 1, nsctx=1, nbctx=1, hints=0, shapes=2 if q else 4, time=90 if q else 1200)
    j += each(N, "hist_seq", 2 if q else 8, nsctx=1, nbctx=1, depth=3 if q else 5, shapes=2)
    j += each(E, "hist_seq", 2, nsctx=1, nbctx=1, depth=2 if q else 3, shapes=1)
    j += each(N, "rekey", 2, bases=4 if q else 12) + each(E, "rekey", 2, bases=1 if q else 4, step=2 if q else 1)
    j += each(N, "repay", 2) + each(E, "repay", 2, step=4 if q else 1, nlens=2 if q else 5)
    reps = max([70000 if q else 1 << 20] + [v + 2 for v in B.literals() if v <= 3 << 20])
    j += each(["default", "avx2", "uint32"] if q else N, "hist_long", 4, nsctx=1, nbctx=1, shapes=1 if q else 2, reps=reps)
    j += each(N, "aging", 3, max=1 << 17 if q else 1 << 22, crowd=20000 if q else 100000) + each(E, "aging", 4, max=1 << 13 if q else 1 << 17, crowd=600 if q else 5000)
    j += each(["default", "avx2"] if q else N, "millions", 8, max=(1 << 24) + 3 if q else (1 << 32) + 3, bmax=(1 << 18) + 3 if q else (1 << 24) + 3)
    if not q:
        j += each(["default", "uint32", "avx2"], "hist_bfs", 1, hints=0, time=3600)
        j += each(["default"], "hist_seq", 8, nsctx=2, nbctx=2, depth=4, shapes=1)
    return j


def c10(t):
    q = t == "quick"
    j = [J("default-sched", "sched", 2, crowd=1, pairs=0 if q else 1)]
    j += [J("default-sched", "sched", 8, all=1, three=0 if q else 1, allexec=700 if q else 6000, bound=2 if q else 3, maxexec=1500 if q else 20000)]
    j += each([c + "-sched" for c in N if c != "default"], "sched", 2 if q else 8, all=0 if q else 1, three=1, allexec=3000, bound=2, maxexec=1500 if q else 20000)
    j += each([c + "-sched" for c in N if c not in ("default", "avx2")], "sched", 1 if q else 8, crowd=1, pairs=0 if q else 1, step=5 if q else 1)
    j += [J("avx2-sched", "sched", 4, crowd=1, pairs=0, step=37 if q else 3)]
    return j


def c11(t):
    q = t == "quick"
    j = each(N, "allochist", 2, depth=5 if q else 7)
    j += each(E, "allochist", 2, depth=3 if q else 4, many=30)
    back = ["default-memalign", "default-malloc", "sse2-memalign", "sse2-malloc", "avx2-memalign", "uint32-memalign", "uint32-malloc"]
    j += each(back, "allochist", 1, depth=4 if q else 6)
    j += each(["neon-aarch64-malloc"], "allochist", 1, depth=3, many=30)
    j += each(N, "nomem", 1)
    j += each(N, "leak", 2, nstep=5 if q else 1) + each(E, "leak", 1, step=13 if q else 1, nstep=50 if q else 7)
    j += each(E, "nomem", 1, step=5)
    return j


def c12(t):
    q = t == "quick"
    j = each(E, "leftovers", 2, step=4 if q else 1, nfill=3)
    j += each(E, "align_bs", 1) + each(E, "align_single", 1)
    j += each(N, "addresses", 2, step=5 if q else 1) + each(E, "addresses", 2, step=127 if q else 16)
    j += each(N, "neighbours", 2, gstep=3 if q else 1) + [J("default", "neighbours", 4)] + each(E, "neighbours", 2, gstep=17 if q else 2)
    j += each(N, "layouts", 2) + each(E, "layouts", 2, step=37 if q else 1)
    j += each(N, "ambient", 2) + each(E, "ambient", 2, step=9 if q else 1)
    j += each(N, "leftovers", 4) + each(N, "align_bs", 1) + each(N, "align_single", 1)
    return j


EXTRA13 = [n for n in B.CONFIGS if n not in ALL and not n.endswith(("-san", "-trap", "-sched", "-stub", "-steps", "-touch"))]


def c13(t):
    q = t == "quick"
    j = []
    for c in list(ALL) + EXTRA13:
        e = B.CONFIGS[c].emulated()
        slow = e or c.endswith("-O0")
        j.append(J(c, "bs_pairs", 1, ustep=(32 if q else 4) if slow else (4 if q else 1)))
        j.append(J(c, "single_pairs", 1, ustep=(64 if q else 8) if slow else (32 if q else 4)))
        j.append(J(c, "batchsize", 1, want=B.CONFIGS[c].width))
        j.append(J(c, "keys", 1, what="special", flavour="bs", limit=(600 if q else 6000) if slow else (3000 if q else 1 << 30)))
        j.append(J(c, "mix", 1, smax=1 if q or slow else 8, step=(37 if q else 5) if slow else (4 if q else 1)))
        j.append(J(c, "batch", 1, np=2, nm=1, step=32 if slow else 8))
        j.append(J(c, "maxlen", 1, step=(67 if q else 20) if slow else (20 if q else 4), nstr=1, slotstep=60, emstep=184))
        j.append(J(c, "align_bs", 1))
    return j


def c14(t):
    q = t == "quick"
    j = each(E, "refuse", 1, what="near", top=600)
    j += each(N, "refuse", 1, what="near")
    j += each(["default"] if q else N, "refuse", 8, what="all", bits=28 if q else 32)
    j += each([c for c in N if c != "default"] if q else [], "refuse", 1, what="all", bits=20)
    if not q:
        j += each(E, "refuse", 8, what="all", bits=24)
    return j


def c15(t):
    q = t == "quick"
    j = each(E, "fpstate", 1, nenv=2 if q else 5, nstep=32 if q else 4)
    j += each(N + ["mmx-clang", "mmx-altsbox-clang", "mmx-clang-O0", "default-clang", "sse2-clang", "avx2-clang"], "fpstate", 2, nenv=3 if q else 5)
    return j


def c16(t):
    q = t == "quick"
    san = [c for c in B.CONFIGS if c.endswith("-san")]
    trap = [c for c in B.CONFIGS if c.endswith("-trap")]
    j = [J("default-ubsan-trap", "san_huge", 1, dir=d, hugelen=(1 << 31) + 27, hang=3000, soft=400) for d in ("enc", "dec")]
    j += [J("default-ubsan-stub", "lens_stub", 2, few=1, hang=3000)]
    j += each([c for c in trap if c != "default-ubsan-trap"], "san", 2, step=50 if q else 5, quick=1 if q else 0)
    j += each(san, "san", 4, step=2 if q else 1, quick=1 if q else 0)
    j += each(san, "single_pairs", 1, ustep=64 if q else 4)
    j += each(san, "bs_pairs", 1, ustep=16 if q else 1)
    j += each(san, "align_bs", 1) + each(san, "align_single", 1)
    j += each(san, "maxlen", 2, step=20 if q else 2, nstr=1, slotstep=60, emstep=64)
    return j


def c17(t):
    q = t == "quick"
    j = each(["default", "avx2"] if q else N, "reent", 4, what="long", strides=1 if q else 3)
    j += each(N, "reent", 2 if q else 8, what="batch", full=1, maxlen=24, minstride=13 if q else 1, strides=13 if q else 2)
    j += each(N, "reent", 4 if q else 8, what="batch", strides=1 if q else 5, maxlen=16)
    j += each(["default", "uint32", "avx2"] if q else N, "reent", 4 if q else 8, what="once", step=20011 if q else 499, sstep=211 if q else 1, maxlen=16)
    j += each(N, "reent", 2 if q else 4, what="tower", depth=40 if q else 70, steps=60000 if q else 2000000)
    if not q:
        j += each(N, "reent", 8, what="batch", strides=1, maxlen=40)
    return j


def c18(t):
    q = t == "quick"
    st = [c + "-steps" for c in N]
    return each(st, "steps", 2 if q else 4, big=1 << 22 if q else 1 << 26, ustep=4 if q else 1, reps=20000 if q else 400000) + \
        each([c + "-steps" for c in E], "steps", 2 if q else 8, big=1 << 14 if q else 1 << 20, ustep=64 if q else 4, step=8 if q else 1, reps=300 if q else 5000, crowd=2000 if q else 20000)


def c19(t):
    q = t == "quick"
    return each(N + ["default-memalign", "default-malloc"], "quiet", 2 if q else 4, big=1 << 16 if q else 1 << 22, ustep=4 if q else 1)


def c20(t):
    q = t == "quick"
    j = each(N, "abandon", 4 if q else 8, what="step", dist=12 if q else 4, bdist=1200 if q else 60, parts=4, steps=40000 if q else 2000000, hang=25 if q else 120)
    j += each(N, "abandon", 2, what="touch", reps=2000 if q else 40000, hang=25 if q else 120)
    return j


FN = dict(C01=c01, C02=c02, C03=c03, C04=c04, C05=c05, C06=c06, C07=c07, C08=c08, C09=c09, C10=c10, C11=c11, C12=c12, C13=c13, C14=c14,
          C15=c15, C16=c16, C17=c17, C18=c18, C19=c19, C20=c20)


def jobs(prop, tier):
    return FN[prop](tier)


BOUNDS = {
 "C01": {"quick": "single-packet calls: all pairs of values over 8 control word and 184 payload bytes (strength-2 array); all triples of values over control word and first 16 payload bytes (strength-3 array of 2^24 words); all structured words and payloads; all one and two bit deviations from 00.. and ff..; little and big endian",
         "thorough": "as quick, with the strength-3 array for 8, 9, 16 and 24 byte payloads and in emulated configurations, all pairs in every configuration"},
 "C02": {"quick": "control words: every triple of byte values (2^24 words, single-packet default build; 2^22 of them parallel), every pair everywhere native, structured words with their one and two bit neighbours, both flavours, every configuration (emulated ones: 8192 of the pairs)",
         "thorough": "every triple of byte values (2^24 words) in every native configuration, every pair in emulated ones"},
 "C03": {"quick": "pair array (256 keys x 256 packets of 184 bytes) in every native configuration, 1/16 of the keys emulated; every packet length in every slot, compared with the library's own single-packet result",
         "thorough": "complete pair array everywhere; every mixture shift of the lengths"},
 "C04": {"quick": "all (maximum length, length) pairs x 4 flavour combinations x 2 orders; pair array contents; single-packet lengths to 1100 and around 65536", "thorough": "all shifts, single-packet lengths to 6000"},
 "C05": {"quick": "all batch sizes 0..B x fill patterns, all ordered slot pairs (changed, observed), related packets (equal, one bit or one block apart) in all slot pairs; emulated builds on a stride", "thorough": "all of them everywhere"},
 "C06": {"quick": "all 24 maximum lengths x every packet length 0..184, and longer packets to 65535+, slot strides as listed", "thorough": "finer strides"},
 "C07": {"quick": "lengths 0..2200, every length within 9 of a power of two to 2^20, and 2^31+24 (encrypt), 2^31+27 (decrypt); over stand-in ciphers also the lengths around 2^31 and 2^32-1", "thorough": "lengths 0..20000, powers to 2^24, and 2^31-1, 2^32-8, 2^32-1 both directions"},
 "C08": {"quick": "every length 0..184 x start/end of accessible memory x slots x maximum lengths (stride), every byte outside checked or inaccessible; every load and store of an instrumented build checked against per-byte marks", "thorough": "smaller strides"},
 "C09": {"quick": "all histories of any length over 2+2 contexts, 3 control words, 7 packet sets (fixed point of the reachable concrete states); all sequences of 3 calls run straight; re-keying between all related control words; 70000-fold repetitions; contexts used up to 2^17 calls after they were set, with 20000 contexts alive; 2^24 single-packet, 2^18 parallel calls of each kind on one context (two configurations)", "thorough": "all sequences of 5 calls, 2^20-fold repetitions, contexts used up to 2^22 calls after they were set"},
 "C10": {"quick": "two-thread programs from 3 context states, all schedules with up to 2 preemptions at conflicting accesses, one preemption at any shared access; crowds of 66 threads, each stopped at one of up to 100 places in its call, resumed in two orders", "thorough": "three threads, 3 preemptions; crowds running every pair of programs"},
 "C11": {"quick": "all histories of 5 allocate/free steps with each allocation failing or not, all back ends; every processing call without any memory; every shape of call and every release repeated, with the memory the library holds counted after each round", "thorough": "histories of 7 steps (5 in emulated configurations)"},
 "C12": {"quick": "all 64 alignments of payload and control word; context, payload, control word and batch array in all 24 orders in memory at distances 0..79 (default build; every third elsewhere), of 4, 8, 16 KiB and 4 GiB; stack, heap and vector register fill patterns; rounding modes, register and flag patterns, errno, environment, locale, clock and random number values, 200 stack positions", "thorough": "all patterns in emulated builds too"},
 "C13": {"quick": "one exhaustive workload in all 14 official and the further buildable configurations", "thorough": "finer strides"},
 "C14": {"quick": "maximum lengths 0..4096, all values within 9 of multiples of powers of two, and all values below 2^28 (default build)", "thorough": "all 2^32 maximum lengths in every native configuration"},
 "C15": {"quick": "all calls x batch sizes x maximum lengths x 3 control/status register settings, x86 builds of gcc and clang, FPCR/DF elsewhere", "thorough": "5 settings"},
 "C17": {"quick": "every API call single stepped with a complete nested call (each of the six operations, own or shared context) run at instruction boundaries inside the library: at every boundary for batches of one to four packets of up to 16 bytes and for single-packet calls of every length class up to 184 bytes (two configurations); at every 13th boundary for full batches of up to 24 bytes; and one single interruption per call at every 20011th (single-packet calls: 211th) boundary; up to 40 calls one inside the other, each interrupted once at one of 12 instructions; native x86 configurations", "thorough": "further strides and phases, packets of up to 40 bytes, all native configurations everywhere, single interruptions at every 499th (single-packet calls: every) boundary"},
 "C18": {"quick": "allocation with failing requests, all structured control words, a quarter of the pairs of byte values, all lengths to 1030 and around powers of two to 2^22, all maximum lengths with 24 batch shapes, 20000 repetitions, 40000 contexts, growth over lengths 4^5 to 4^11; at most 4 million + 2000 per byte basic blocks and 1 MB of stack per call; native configurations, and with strides the emulated ones", "thorough": "all pairs, lengths to 2^26, 400000 repetitions"},
 "C19": {"quick": "the workload of C18 with lengths to 2^16, every system call trapped; native configurations and allocator back ends", "thorough": "all pairs, lengths to 2^22"},
 "C20": {"quick": "every operation left at every 3rd (parallel: every 300th) instruction, in a copy of the process; left up to 300 times at one of 12 instructions; left up to 2000 times at the first read or write of each page of its objects (packets of nine slots), long single packets and full batches; each followed by all operations on other and on the same objects, in the same thread or another; native x86 configurations", "thorough": "every instruction (parallel: every 15th), 40000 times over"},
 "C16": {"quick": "lengths, batch sizes, maximum lengths, alignments and pair array under address and undefined behaviour monitors; trapping builds emulated; payloads of 2^31+27 bytes, chaining code at 2^31+8 and 2^32-1 bytes, under the undefined behaviour monitor", "thorough": "smaller strides"},
}
ASSUMPTIONS = {
 "C01": ["the reference model (mc/ref.c), written from the published description of DVB-CSA and checked against published vectors, is right"],
 "C02": ["as C01 for the key schedule"],
 "C03": ["a defect that shows only for one particular combination of four or more bytes is out of reach"],
 "C07": ["lengths between the enumerated ones behave like their neighbours"],
 "C09": ["two histories reaching byte-identical contexts and library memory behave alike from there on (no hidden state: registers, thread-local storage and files are not part of the state)"],
 "C10": ["sequentially consistent interleavings of the instrumented compilation; independent accesses commute"],
 "C11": ["allocation goes through malloc, calloc, realloc, posix_memalign, aligned_alloc, memalign, valloc or mmap, and free"],
 "C13": ["qemu user emulation stands for aarch64, ppc and ppc64 hardware; Altivec does not compile on the pinned tree and is not covered"],
 "C15": ["the System V x86-64 and AAPCS64 calling conventions"],
 "C17": ["one level of nesting at every instruction, many levels only for calls interrupted once each at chosen instructions; the interrupting call runs to completion; interrupted at instruction boundaries inside the library's own code only (not inside libc functions it calls)", "x86 only: single stepping is not available under qemu user emulation"],
 "C18": ["work inside C library functions (memcpy, malloc) is not counted"],
 "C19": ["x86-64 Linux with syscall user dispatch; effects through shared memory or vDSO calls that change no state are not seen"],
 "C20": ["x86 only, as for C17; what an abandoned call leaves is memory: a copy of the process made at that instruction stands for cancelling, jumping and forking alike"],
 "C16": ["gcc's sanitizer runtimes detect what they are meant to detect"],
}
COMMON_ASSUMPTIONS = ["the compilers, the C library and qemu work as documented",
                      "what holds for the enumerated cases holds beyond the stated bounds only as far as the algorithm is uniform there"]
