#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] | --replay FILE | --setup

Runs the exploration jobs of one property (checks.py) against /repo's working
tree, confirms any failure in a fresh process, writes the evidence file and
prints VIOLATION / KNOWN-FINDING lines.  Exit status: 0 held, 1 violated,
2 the check itself could not be run.
"""
import collections, json, os, queue, re, resource, signal, struct, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import builds as B
import checks as K

SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NPROC = os.cpu_count() or 4
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


class Exe:
    """Executables and libraries of this run, built on demand."""

    def __init__(self):
        self.lib, self.exe, self.tab, self.skipped = {}, {}, {}, {}

    def start(self, jobs):
        kinds = {"x86"}
        for j in jobs:
            kinds.add(j.kind)
            if j.kind == "sched":
                kinds.add("sched")
        self._e = {k: B.exe_start(k) for k in sorted(kinds)}
        self._l = {n: B.lib_start(B.CONFIGS[n]) for n in dict.fromkeys(j.cfg for j in jobs if j.cfg)}
        for k, w in self._e.items():
            self.exe[k] = w()
        for t in ("geo", "pair"):
            self.tab[t] = B.table(self.exe["x86"], t, SEED)
        self.tab["dict"] = B.dictionary()
        for n, w in self._l.items():
            try:
                self.lib[n] = w()
            except B.BuildError as e:
                if not B.CONFIGS[n].optional:
                    raise
                self.skipped[n] = str(e).splitlines()[0][:200]
                log("skipping configuration", n)


class Job:
    def __init__(self, cfg, mode, shards=1, kind=None, soft=None, **args):
        # soft: seconds after which the job is abandoned and reported as not
        # covered (jobs whose cost is one long library call only)
        self.cfg, self.mode, self.shards, self.args, self.soft = cfg, mode, shards, args, soft
        c = B.CONFIGS.get(cfg)
        self.kind = kind or ("san" if cfg.endswith("-san") else "sched" if cfg.endswith("-sched") else c.arch)

    def name(self):
        return "%s %s%s" % (self.cfg, self.mode, "".join(" %s=%s" % kv for kv in sorted(self.args.items())))


def command(x, job, extra):
    c = B.CONFIGS[job.cfg]
    args = dict(job.args)
    args.setdefault("seed", SEED)
    args.setdefault("hang", 300 if c.emulated() else 120)
    args.update(extra)
    return (c.emulator() + [x.exe[job.kind], "lib=" + x.lib[job.cfg], "mode=" + job.mode,
                            "geo=" + x.tab["geo"], "pair=" + x.tab["pair"], "dict=" + x.tab["dict"]] + ["%s=%s" % kv for kv in args.items()])


ENV = dict(os.environ)
for v in ("LD_PRELOAD", "MALLOC_PERTURB_", "GLIBC_TUNABLES"):
    ENV.pop(v, None)
ENV.update(LC_ALL="C", ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:exitcode=77:handle_abort=0:detect_stack_use_after_return=1:strict_string_checks=1",
           UBSAN_OPTIONS="print_stacktrace=1:exitcode=77:halt_on_error=1")


try:
    import ctypes
    _libc = ctypes.CDLL(None)
except OSError:
    _libc = None


def limits():
    if _libc:
        _libc.personality(0x0040000)    # same addresses in every run
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)


class Result:
    def __init__(self):
        self.kind = None        # ok, fail, error, known
        self.text = ""
        self.case = None
        self.stats = {}
        self.samples = []
        self.out = ""
        self.late = False       # cut off by the time limit of the whole check


heavy = {m: threading.Semaphore(2) for m in ("lens_huge", "lens_stub", "san_huge")}      # modes needing gigabytes
live = set()
live_lock = threading.Lock()


class Reader(threading.Thread):
    """Drains a pipe, keeping its first and last CAP bytes."""
    CAP = 4 << 20

    def __init__(self, f):
        super().__init__(daemon=True)
        self.f, self.head, self.tail, self.n = f, b"", collections.deque(), 0
        self.start()

    def run(self):
        while True:
            d = os.read(self.f.fileno(), 1 << 16)
            if not d:
                break
            n = self.CAP - len(self.head)
            self.head += d[:max(n, 0)]
            if n < len(d):
                self.tail.append(d[max(n, 0):])
                self.n += len(self.tail[-1])
                while self.n - len(self.tail[0]) > self.CAP:
                    self.n -= len(self.tail.popleft())
        self.f.close()

    def text(self):
        self.join()
        return (self.head + b"".join(self.tail)).decode("utf-8", "replace")


def execute(x, job, extra, timeout):
    r = Result()
    pf = os.path.join(B.WORK, "prog-%d-%d" % (os.getpid(), threading.get_ident()))
    if os.path.exists(pf):
        os.unlink(pf)
    cmd = command(x, job, dict(extra, progress=pf))
    try:
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, preexec_fn=limits)
    except OSError as e:
        r.kind, r.text = "error", str(e)
        return r
    with live_lock:
        live.add(p)
    try:
        ro, re_ = Reader(p.stdout), Reader(p.stderr)
        p.wait(timeout=max(1, min(timeout, job.soft) if job.soft else timeout))
        try:
            os.killpg(p.pid, signal.SIGKILL)    # leaves no process behind that holds the pipes
        except OSError:
            pass
        out, err = ro.text(), re_.text()
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        # the time limit is one of the bounds: what it cuts off is reported as
        # not covered in the evidence
        r.kind, r.text, r.stats = "ok", "", {"abandoned_jobs": 1}
        r.late = not (job.soft and timeout > job.soft - 1)
        return r
    finally:
        with live_lock:
            live.discard(p)
    case, desc = None, ""
    try:
        d = open(pf, "rb").read()
        case = struct.unpack((">" if B.ARCH[B.CONFIGS[job.cfg].arch][2] else "<") + "Q", d[:8])[0]
        desc = d[8:].split(b"\0")[0].decode("latin1")
        os.unlink(pf)
    except (OSError, struct.error):
        pass
    r.out = out + err
    for l in out.splitlines():
        if l.startswith("STAT "):
            _, k, v = l.split()
            r.stats[k] = r.stats.get(k, 0) + int(v)
        elif l.startswith("SAMPLE "):
            r.samples.append(l[7:])
        elif l.startswith("FAIL "):
            m = re.match(r"FAIL (\d+) (.*)", l)
            r.kind, r.case, r.text = "fail", int(m.group(1)), m.group(2)
    if r.kind:
        return r
    if p.returncode == 0 and "\nDONE " in "\n" + out:
        r.kind = "ok"
        return r
    rep = re.search(r"^.*(runtime error:|ERROR: AddressSanitizer).*$", err, re.M)
    if rep or (p.returncode in (-signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGABRT, -signal.SIGTRAP,
                                139, 135, 132, 136, 134, 133)):
        r.kind, r.case = "fail", case
        if rep:
            where = [l.strip() for l in err.splitlines() if re.match(r"\s*#[0-5] ", l)]
            what = re.sub(r"^=+\d+=+", "", rep.group(0)).replace(B.REPO + "/", "")
            r.text = "[%s] %s%s" % (desc, what, " at " + re.sub(r"^#0 \S+ in ", "", where[0]).replace(B.REPO + "/", "") if where else "")
        else:
            r.text = "[%s] the process died (status %d): memory was damaged" % (desc, p.returncode)
        return r
    r.kind, r.text = "error", "status %s: %s" % (p.returncode, (err or out)[-1500:])
    return r


def known_findings(prop):
    f = os.path.join(VERIF, "known_findings.txt")
    k = []
    if os.path.exists(f):
        for l in open(f):
            m = re.match(r"known: property=(\S+) job=(.*?) case=(.*?) :: (.*)", l)
            if m and m.group(1) == prop:
                k.append(m.groups()[1:])
    return k


def write_replay(prop, job, extra, r):
    d = os.path.join(VERIF, "out")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%s-%s.json" % (prop, job.cfg, job.mode, r.case))
    json.dump({"property": prop, "config": job.cfg, "mode": job.mode, "kind": job.kind, "args": job.args, "extra": extra, "seed": SEED,
               "case": r.case, "failure": r.text,
               "how": "python3 mc/run.py --replay <this file> rebuilds this configuration from /repo and runs just this case"}, open(p, "w"), indent=1)
    return p


def confirm(x, job, extra, r, deadline):
    """Replay a failure in fresh processes; returns (extra, result) or None."""
    tries = []
    if r.case:
        tries += [{"only": r.case}, {"only": r.case}]
    tries += [extra, extra]
    seen = 0
    for e in tries:
        rr = execute(x, job, dict(e), deadline - time.time())
        if rr.kind == "fail":
            seen += 1
            return e, rr
        if rr.kind == "error":
            return None
    return None


def check(prop, tier):
    jobs = [Job(**j) for j in K.jobs(prop, tier)]
    limit = 780 if tier == "quick" else 6 * 3600
    deadline = T0 + limit
    x = Exe()
    x.start(jobs)
    log("built %d configurations" % len(x.lib))
    units = []
    for j in jobs:
        if j.cfg in x.skipped:
            continue
        for s in range(j.shards):
            units.append((j, {"shard": s, "shards": j.shards} if j.shards > 1 else {}))
    # interleave, heavy jobs first as listed
    q = queue.Queue()
    for u in units:
        q.put(u)
    results, stop, times = [], threading.Event(), {}
    lock = threading.Lock()
    viol, errors, known, unconfirmed, late = [], [], [], [], []
    kf = known_findings(prop)

    def worker():
        while not stop.is_set():
            try:
                job, extra = q.get_nowait()
            except queue.Empty:
                return
            extra = dict(extra)
            if time.time() > deadline:
                with lock:
                    late.append(job)
                continue
            while True:
                t = time.time()
                if job.mode in heavy:
                    with heavy[job.mode]:
                        r = execute(x, job, extra, deadline - time.time())
                else:
                    r = execute(x, job, extra, deadline - time.time())
                with lock:
                    times[job.name()] = times.get(job.name(), 0) + time.time() - t
                if r.kind != "fail":
                    break
                hit = [k for k in kf if k[0] == job.name() and k[1] in r.text]
                if not hit:
                    break
                with lock:
                    known.append(hit[0][2])
                extra["from"] = r.case + 1
            if r.kind == "fail":
                c = confirm(x, job, extra, r, deadline + 60)
                with lock:
                    if c:
                        viol.append((job, c[0], c[1]))
                        stop.set()
                    else:
                        unconfirmed.append((job, extra, r))
                        results.append((job, r))
            elif r.kind == "error":
                with lock:
                    errors.append((job, r))
                    stop.set()
            else:
                with lock:
                    results.append((job, r))
                    if r.late:
                        late.append(job)

    threads = [threading.Thread(target=worker) for _ in range(NPROC)]
    for t in threads:
        t.start()
    for t in threads:
        while t.is_alive():
            t.join(0.2)
            if stop.is_set() and viol:
                with live_lock:
                    for p in list(live):
                        try:
                            os.killpg(p.pid, signal.SIGKILL)
                        except OSError:
                            pass
    if viol:
        errors = []
    elif 2 * len(late) > len(units):
        r = Result()
        r.text = "the time limit cut off %d of %d jobs" % (len(late), len(units))
        errors.append((late[0], r))
    if os.environ.get("MC_TIMES"):
        for n, s in sorted(times.items(), key=lambda kv: -kv[1])[:40]:
            log("%7.1f s  %s" % (s, n))

    stats, samples, seen, per = {}, [], {}, {}
    for job, r in results:
        for k, v in r.stats.items():
            stats[k] = stats.get(k, 0) + v
        p = per.setdefault(job.name(), [0, 0, 0])
        for i, k in enumerate(("states", "transitions", "checked")):
            p[i] += r.stats.get(k, 0)
        for s in r.samples:
            n = seen.get((job.mode, job.cfg), 0)
            m = seen.get(job.mode, 0)
            if n < 1 and m < 3:
                seen[(job.mode, job.cfg)] = n + 1
                seen[job.mode] = m + 1
                samples.append("%s: %s" % (job.name(), s))
    for job, e, r in viol:
        samples.append("violation: %s: %s" % (job.name(), r.text))
    if not samples:
        samples = ["%s: %d cases" % (n, p[0]) for n, p in list(per.items())[:5]] or ["none completed"]
    cov = {"states": stats.pop("states", 0), "transitions": stats.pop("transitions", 0),
           "traces_validated_against_impl": stats.pop("checked", 0), "samples": samples[:40],
           "meaning": "states: enumerated cases, or distinct reached states in the hist_bfs and sched modes; transitions: calls into the "
                      "library (scheduling steps in sched modes); traces_validated_against_impl: results of the real library compared "
                      "with what the reference model or the property prescribes",
           "exhaustive": not (viol or errors or unconfirmed) and not stats.get("unexpanded_states") and not stats.get("bound_hit")
           and not stats.get("abandoned_jobs"),
           "bounds": K.BOUNDS.get(prop, {}).get(tier, K.BOUNDS.get(prop, {}).get("quick", "")),
           "configurations": sorted({j.cfg for j, _ in results}),
           "jobs": {n: {"states": p[0], "transitions": p[1], "validated": p[2]} for n, p in sorted(per.items())}}
    if stats:
        cov["other_counts"] = stats
    if x.skipped:
        cov["skipped_configurations"] = x.skipped
    if late:
        stats["abandoned_jobs"] = max(len(late), stats.get("abandoned_jobs", 0))
        cov["other_counts"], cov["exhaustive"] = stats, False
        cov["cut_off_by_the_time_limit"] = sorted({j.name() for j in late})
    if unconfirmed:
        cov["not_reproduced"] = ["%s: %s" % (j.name(), r.text) for j, e, r in unconfirmed]
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking", "coverage": cov,
          "assumptions": K.ASSUMPTIONS.get(prop, []) + K.COMMON_ASSUMPTIONS,
          "wall_s": round(time.time() - T0, 2), "violations": len(viol)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    p = os.path.join(VERIF, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)
    for k in dict.fromkeys(known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    for j, e, r in unconfirmed:
        print("note: not reproduced: %s: %s" % (j.name(), r.text))
    for j, e, r in viol[:1]:
        print("%s: %s" % (j.name(), r.text))
        print("VIOLATION property=%s replay=%s" % (prop, write_replay(prop, j, e, r)))
    if viol:
        return 1
    if errors:
        for j, r in errors[:3]:
            print("ERROR in %s: %s" % (j.name(), r.text), file=sys.stderr)
        return 2
    print("%s (%s): held; %d cases/states, %d calls, %d comparisons, %.1f s" % (prop, tier, cov["states"], cov["transitions"],
                                                                           cov["traces_validated_against_impl"], time.time() - T0))
    return 0


def replay(path):
    global SEED
    d = json.load(open(path))
    SEED = d["seed"]
    job = Job(d["config"], d["mode"], 1, d["kind"], **d["args"])
    x = Exe()
    x.start([job])
    r = execute(x, job, d["extra"], 3600)
    print(r.kind, r.text)
    return 1 if r.kind == "fail" else 0 if r.kind == "ok" else 2


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    os.makedirs(B.WORK, exist_ok=True)
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--setup":
        jobs = [Job(**j) for p in K.PROPS for j in K.jobs(p, "quick")]
        Exe().start(jobs)
        return 0
    return check(a[0], tier)


if __name__ == "__main__":
    try:
        rc = main()
    except B.BuildError as e:
        print("BUILD FAILED: %s" % e, file=sys.stderr)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
