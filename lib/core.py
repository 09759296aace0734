"""Check runner: worker pool around the driver, verdicts, known findings, evidence, replays."""
import collections, hashlib, importlib, json, multiprocessing as mp, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path.insert(0, LIB)
import build

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:handle_abort=1:allocator_may_return_null=0:"
                    "detect_stack_use_after_return=0:quarantine_size_mb=8:malloc_context_size=8:max_allocation_size_mb=4096",
    "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1:halt_on_error=1",
    "LC_ALL": "C",
}


class HarnessError(Exception):
    pass


class CaseViolation(Exception):
    """Stops a case after a violation that makes the rest meaningless."""


class Res:
    """Observed outcome of one execution of the real code."""
    __slots__ = ("code", "sig", "timeout", "out", "err", "args", "cwd")

    def __init__(self, code, sig, timeout, out, err, args, cwd):
        self.code, self.sig, self.timeout, self.out, self.err, self.args, self.cwd = code, sig, timeout, out, err, args, cwd


def rd(p):
    try:
        with open(p, "rb") as f:
            return f.read()
    except OSError:
        return b""


def crash_key(err):
    """Call-site identification of a crash without line numbers."""
    text = err.decode(errors="replace")
    kind = "signal"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text)
    if m:
        kind = "asan-" + m.group(1)
    m2 = re.search(r"runtime error: (.*)", text)
    if m2:
        what = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*", "N", m2.group(1))
        kind = "ubsan-" + what[:60]
    m3 = re.search(r"(\w+\.(?:cc|h|cpp)):\d+: (.*?): Assertion `(.*?)' failed", text)
    if m3:
        kind = "assert-%s-%s" % (m3.group(1), m3.group(3)[:60])
    m4 = re.search(r"terminate called after throwing an instance of '(.*?)'", text)
    if m4:
        kind = "terminate-" + m4.group(1)[:60]
    fn = ""
    for line in text.splitlines():
        m = re.match(r"\s*#\d+ 0x[0-9a-f]+ in (.*?) (/\S+?):\d+(?::\d+)?$", line)
        if m and m.group(2).startswith((build.REPO + "/src/", build.REPO + "/gui/")):
            fn = re.sub(r"<.*>|\(.*$", "", m.group(1).replace("(anonymous namespace)::", "")).strip()
            break
    return "crash:%s@%s" % (kind, fn)


def _stack():
    """Instrumented frames are several times larger; the limit grows accordingly."""
    import resource
    hard = resource.getrlimit(resource.RLIMIT_STACK)[1]
    want = 64 << 20
    resource.setrlimit(resource.RLIMIT_STACK, (want if hard == resource.RLIM_INFINITY else min(want, hard), hard))


class Driver:
    def __init__(self, binary, warm, env=None):
        self.err = tempfile.TemporaryFile()
        e = dict(os.environ)
        e.update(SAN_ENV)
        if env:
            e.update(env)
        self.p = subprocess.Popen([binary, warm] if warm else [binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=e, preexec_fn=_stack)
        line = self.p.stdout.readline()
        if not line.startswith(b"ready"):
            self.err.seek(0)
            raise HarnessError("driver did not start: %r %r" % (line, self.err.read()[-2000:]))
        self.ready = line.decode().strip()
        self.n = 0

    def job(self, cwd, tool, args, timeout_ms, out, err):
        self.n += 1
        fields = [str(self.n), str(int(timeout_ms)), cwd, out, err, tool] + list(args)
        data = b"\x1f".join(os.fsencode(f).replace(b"\n", b"\x1e") for f in fields)
        self.p.stdin.write(data + b"\n")
        self.p.stdin.flush()
        line = self.p.stdout.readline().decode().split()
        if len(line) != 4 or line[0] != str(self.n):
            self.err.seek(0)
            raise HarnessError("driver protocol: %r %r" % (line, self.err.read()[-2000:]))
        return int(line[1]), int(line[2]), line[3] == "1"

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()


class Ctx:
    """Passed to every case: runs the real code and records observations."""

    def __init__(self, check, env, tier, seed):
        self.check, self.env, self.tier, self.seed = check, env, tier, seed
        self.driver = None
        self.reset(None, None)

    def reset(self, idx, d):
        self.idx, self.dir = idx, d
        self.stats = collections.Counter()
        self.sigs = []
        self.samples = []
        self.fails = []
        self.cmds = []
        self.nrun = 0

    # --- observations
    def count(self, k, n=1):
        self.stats[k] += n

    def sig(self, *what):
        self.sigs.append(hashlib.md5("|".join(hex(w) if isinstance(w, int) else repr(w) for w in what).encode()).hexdigest()[:16])

    def sample(self, text):
        if len(self.samples) < 1:
            self.samples.append(text if len(text) < 1500 else text[:1500] + "…")

    def fail(self, key, msg, stop=False):
        self.fails.append((key, str(msg)[:3000]))
        if stop:
            raise CaseViolation()

    # --- execution
    def path(self, name):
        return os.path.join(self.dir, name)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        return p

    def run(self, tool, args, timeout=20.0, cwd=None, crash_ok=False, slow_ok=False):
        if self.driver is None:
            self.driver = Driver(self.env["driver"], self.env.get("warm"), getattr(self.check, "DRIVER_ENV", None))
        self.nrun += 1
        out, err = self.path("stdout.%d" % self.nrun), self.path("stderr.%d" % self.nrun)
        cwd = cwd or self.dir
        self.cmds.append([tool] + list(args))
        code, sig, to = self.driver.job(cwd, tool, args, timeout * 1000, out, err)
        if to and slow_ok:  # The caller's input may be legitimately expensive.
            self.count("executions")
            self.count("slow_skipped")
            return Res(code, sig, to, rd(out), rd(err), args, cwd)
        if to:  # A loaded machine is not a verdict: once more with a generous limit.
            self.count("timeouts_rerun")
            code, sig, to = self.driver.job(cwd, tool, args, max(60.0, timeout * 4) * 1000, out, err)
        self.count("executions")
        r = Res(code, sig, to, rd(out), rd(err), args, cwd)
        if not crash_ok:
            if to:
                self.fail("hang:%s" % self.label(), "no result within %.0f s: %s" % (max(60, timeout * 4), args), stop=True)
            if sig or b"Sanitizer" in r.err or b"runtime error:" in r.err:
                self.fail(crash_key(r.err), "signal %d args %s\n%s" % (sig, args, r.err.decode(errors="replace")[-2500:]), stop=True)
        return r

    def label(self):
        return "case"

    def scram(self, args, **kw):
        return self.run("scram", args, **kw)

    def probe(self, args, **kw):
        return self.run("probe", args, **kw)


WARM_PROJECT = """<?xml version="1.0"?>
<scram><model><file>warm.xml</file></model><options><algorithm name="bdd"/></options></scram>
"""
WARM_MODEL = """<?xml version="1.0"?>
<opsa-mef><define-fault-tree name="w"><define-gate name="g"><or><basic-event name="a"/><basic-event name="b"/></or></define-gate></define-fault-tree></opsa-mef>
"""

_G = {}


def _init(check, env, tier, seed, scratch):
    _G["ctx"] = Ctx(check, env, tier, seed)
    _G["scratch"] = scratch
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)


def _one(idx):
    ctx = _G["ctx"]
    check = ctx.check
    d = os.path.join(_G["scratch"], "c%d" % idx)
    os.makedirs(d)
    ctx.reset(idx, d)
    rng = random.Random("%s:%d:%d" % (check.ID, ctx.seed, idx))
    herr = None
    try:
        check.case(ctx, rng, idx)
    except CaseViolation:
        pass
    except HarnessError as e:
        herr = "%s" % e
        ctx.driver = None
    except Exception:
        herr = traceback.format_exc()
    replay = None
    if ctx.fails:
        replay = d
    else:
        shutil.rmtree(d, ignore_errors=True)
    return idx, ctx.fails, dict(ctx.stats), ctx.sigs, ctx.samples, replay, ctx.cmds, herr


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def run_check(ID, argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    only, scale, keep = None, 1.0, False
    it = iter(argv)
    for a in it:
        if a == "--thorough":
            tier = "thorough"
        elif a == "--quick":
            tier = "quick"
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--case":
            only = [int(x) for x in next(it).split(",")]
        elif a == "--scale":
            scale = float(next(it))
        elif a == "--keep":
            keep = True
        elif a == "--replay":
            with open(os.path.join(next(it), "replay.json")) as f:
                r = json.load(f)
            seed, only, tier = r["seed"], [r["case"]], r["tier"]
        else:
            raise SystemExit("unknown argument " + a)
    t0 = time.time()
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(ID.lower())
    check = mod.Check()
    try:
        env = check.build()
    except build.BuildError as e:
        print("BUILD-ERROR %s" % e)
        return 2
    tb = time.time()
    scratch = tempfile.mkdtemp(prefix="verif_%s_" % ID)
    try:
        return _run(check, ID, tier, seed, only, scale, env, scratch, t0, tb)
    finally:
        if not keep:
            shutil.rmtree(scratch, ignore_errors=True)


def _run(check, ID, tier, seed, only, scale, env, scratch, t0, tb):
    with open(os.path.join(scratch, "warm.xml"), "w") as f:
        f.write(WARM_MODEL)
    with open(os.path.join(scratch, "warm_project.xml"), "w") as f:
        f.write(WARM_PROJECT)
    env.setdefault("warm", os.path.join(scratch, "warm_project.xml"))
    env["scratch"] = scratch
    check.env = env
    check.tier, check.seed = tier, seed
    if hasattr(check, "prepare"):
        check.prepare()
    n = check.QUICK if tier == "quick" else check.THOROUGH
    n = max(1, int(n * scale))
    idxs = only if only is not None else list(range(n))
    workers = min(getattr(check, "WORKERS", os.cpu_count() or 4), max(1, len(idxs)))
    stats, sigs, samples, viols, herrs = collections.Counter(), set(), [], {}, []
    done = 0
    replays = os.path.join(VERIF, "replays", ID)
    shutil.rmtree(replays, ignore_errors=True)
    viol_cases = 0
    with mp.get_context("fork").Pool(workers, _init, (check, env, tier, seed, scratch)) as pool:
        for idx, fails, st, sg, sm, rep, cmds, herr in pool.imap_unordered(_one, idxs, chunksize=max(1, min(16, len(idxs) // (workers * 8) or 1))):
            done += 1
            stats.update(st)
            sigs.update(sg)
            if sm and len(samples) < 3:
                samples.extend(sm)
            if herr:
                herrs.append("case %d: %s" % (idx, herr))
            if fails:
                viol_cases += 1
                for key, msg in fails:
                    if key not in viols or idx < viols[key][0]:
                        viols[key] = (idx, msg, rep, cmds)
                if viol_cases > 400 or len(viols) > 60:
                    pool.terminate()
                    break
    if stats["executions"] >= 200 and stats["slow_skipped"] > 0.03 * stats["executions"]:
        viols["hang:many"] = (-1, "%d of %d executions did not finish" % (stats["slow_skipped"], stats["executions"]), None, [])
    if hasattr(check, "finish"):
        for key, msg in check.finish(stats):
            viols[key] = (-1, msg, None, [])
    known = [k for k in load_known() if k["property"] == ID and k.get("status") == "known"]
    reported, known_seen = [], {}
    for key, (idx, msg, rep, cmds) in sorted(viols.items(), key=lambda kv: kv[1][0]):
        m = [k for k in known if k["key"] == key]
        if m:
            known_seen[m[0]["key"]] = m[0]
            continue
        reported.append((key, idx, msg, rep, cmds))
    for k in known:
        if k["key"] in known_seen:
            print("KNOWN-FINDING: property=%s %s" % (ID, k["what"]))
    code = 0
    for j, (key, idx, msg, rep, cmds) in enumerate(reported[:25]):
        dst = os.path.join(replays, "%d" % j)
        os.makedirs(dst, exist_ok=True)
        if rep and os.path.isdir(rep):
            shutil.copytree(rep, os.path.join(dst, "files"), symlinks=True, dirs_exist_ok=True)
        with open(os.path.join(dst, "replay.json"), "w") as f:
            json.dump({"property": ID, "seed": seed, "case": idx, "tier": tier, "key": key, "message": msg, "commands": cmds,
                       "how": "python3-vt /verif/run.py %s --replay %s" % (ID, dst)}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (ID, dst))
        print("  key: %s\n  case %d seed %d: %s" % (key, idx, seed, msg[:600].replace("\n", "\n    ")))
        code = 1
    cov = {"evaluations": done, "distinct_nontrivial": len(sigs), "rule": check.RULE, "samples": samples or ["(none)"],
           "observed": {k: v for k, v in sorted(stats.items())}, "known_findings_seen": sorted(known_seen)}
    ev = {"property": ID, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": getattr(check, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": len(reported)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d cases=%d nontrivial=%d violations=%d known=%d build=%.1fs run=%.1fs" % (
        ID, tier, seed, done, len(sigs), len(reported), len(known_seen), tb - t0, time.time() - tb))
    print("  observed: " + ", ".join("%s=%d" % kv for kv in sorted(stats.items())))
    if code == 0 and herrs:
        print("HARNESS-ERROR (%d) %s" % (len(herrs), herrs[0]))
        return 3
    if code == 1 and herrs:
        print("note: %d harness errors, first: %s" % (len(herrs), herrs[0][-800:]))
    if code == 0 and only is None:
        for k, v in getattr(check, "MIN", {}).items():
            if (len(sigs) if k == "distinct" else stats.get(k, 0)) < v * (scale if scale < 1 else 1):
                print("INCONCLUSIVE: observed too little: %s < %s" % (k, v))
                return 4
    return code


class BaseCheck:
    QUICK, THOROUGH = 500, 10000

    def build(self):
        return build.build_core("asan")
