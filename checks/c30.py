import re
import core, rich, options, ft_common
import c16

MODEL_KINDS = ("fault trees", "event trees")


def spec(o):
    """The in-process spelling of settings."""
    s = []
    if o.algorithm:
        s.append("algorithm=" + o.algorithm)
    if o.prime:
        s.append("prime=1")
    if o.approximation:
        s.append("approximation=" + o.approximation)
    for k in ("probability", "importance", "uncertainty", "ccf"):
        if getattr(o, k):
            s.append("%s=1" % k)
    for k, n in (("limit", "limit"), ("seed", "seed"), ("trials", "trials"), ("quantiles", "quantiles"), ("bins", "bins"), ("mission", "mission"), ("time_step", "step")):
        v = getattr(o, k)
        if v is not None:
            s.append("%s=%s" % (n, repr(v) if isinstance(v, float) else v))
    if o.sil:
        s.append("sil=1")
    return ",".join(s)


class Check(core.BaseCheck):
    ID = "C30"
    QUICK, THOROUGH = 700, 20000
    RULE = ("random histories in one process: (a) two to five loads and analyses of different, partly invalid models under different settings, each compared - exit status, diagnostic, report - with the same run alone in a fresh process; (b) two to five "
            "analyses of one loaded model under different settings (mission time, algorithm, calculator, limits, uncertainty), each report compared with loading and analysing alone in a fresh process under those settings, and the model's state "
            "(mission time, house events, every parameter's and basic event's value, every formula) compared before and after each; non-trivial: a history of at least two successful analyses with different settings, distinct by its reports")
    MIN = {"distinct": 300, "histories": 200, "multi": 200, "reports_compared": 1000, "states_compared": 600, "failed_runs": 40, "mission_changes": 150}
    ASSUMPTIONS = ["histories run in one thread, as the command line does; the GUI runs one analysis at a time as well"]

    def opts(self, rng, m):
        o = options.Options(rng)
        if not m.coherent and o.algorithm in ("mocus", "zbdd") and len(m.basics) > 9:
            o.algorithm, o.prime = "bdd", False
        if o.prime and len(m.basics) > 12 or any(k[0] == "substitution" for k in m.items):
            o.prime = False
        return o

    def case(self, ctx, rng, idx):
        if rng.random() < 0.5:
            self.history(ctx, rng)
        else:
            self.multi(ctx, rng)

    def history(self, ctx, rng):
        models = []
        for i in range(rng.choice([1, 2, 2, 3])):
            m = rich.Rich(rng, small=rng.random() < 0.7)
            sp, docs = rich.spell(m, rng, nfiles=rng.choice([1, 1, 2]))
            files = [ctx.write("m%d_%d.xml" % (i, j), d) for j, d in enumerate(docs)]
            models.append((m, files))
            if rng.random() < 0.35:  # Broken: truncated, or a definition lost.
                k = rng.randrange(len(docs))
                d = docs[k]
                if rng.random() < 0.5:
                    d = d[:rng.randrange(len(d) // 2, len(d))]
                else:
                    tags = list(re.finditer(r"<define-(basic-event|house-event|parameter) [^>]*/>|<define-(basic-event|house-event|parameter) .*?</define-\2>", d, re.S))
                    if tags:
                        t = rng.choice(tags)
                        d = d[:t.start()] + d[t.end():]
                bad = [f for f in files]
                bad[k] = ctx.write("bad%d_%d.xml" % (i, k), d)
                models.append((m, bad))
        runs = []
        for i in range(rng.choice([2, 3, 3, 4, 5])):
            m, files = rng.choice(models)
            o = self.opts(rng, m)
            extra = []
            if rng.random() < 0.06:
                extra = rng.choice([["--validate"], ["--seed", "x"], ["--mission-time", "-1"], ["--prime-implicants", "--mocus"]])
            runs.append(o.cli(rng) + extra + files)
        if rng.random() < 0.5:
            runs.append(list(runs[0]))
        hist = []
        for i, a in enumerate(runs):
            hist += (["--then"] if i else []) + a + ["-o", ctx.path("h%d.xml" % i)]
        r = ctx.run("hist", hist, timeout=90)
        parts = re.split(rb"\n@@HIST \d+ (-?\d+)\n", r.err)
        codes, errs = [int(x) for x in parts[1::2]], parts[0::2]
        if len(codes) != len(runs):
            ctx.fail("history:incomplete", "%d of %d runs: %r" % (len(codes), len(runs), r.err[-600:]), stop=True)
        done = set()
        for i, a in enumerate(runs):
            f = ctx.scram(a + ["-o", ctx.path("f%d.xml" % i)], timeout=60)
            ctx.count("runs_compared")
            if f.code != codes[i]:
                ctx.fail("history:exit", "run %d of the history exits %d, alone %d: %s\n%r\n%r" % (i, codes[i], f.code, a, errs[i][-400:], f.err[-400:]), stop=True)
            if f.code:
                ctx.count("failed_runs")
                if errs[i].strip() != f.err.strip():
                    ctx.fail("history:diagnostic", "run %d of the history: %r, alone: %r" % (i, errs[i][-500:], f.err[-500:]))
                continue
            self.same(ctx, "history:report", core.rd(ctx.path("h%d.xml" % i)), core.rd(ctx.path("f%d.xml" % i)), "run %d %s" % (i, a), done)
        ctx.count("histories")
        if len(done) > 1:
            ctx.sig(*sorted(done))

    def multi(self, ctx, rng):
        m = rich.Rich(rng, small=rng.random() < 0.6)
        sp, docs = rich.spell(m, rng, nfiles=rng.choice([1, 1, 2]))
        files = [ctx.write("m%d.xml" % j, d) for j, d in enumerate(docs)]
        first = self.opts(rng, m)
        first.probability = True
        os_ = [self.opts(rng, m) for _ in range(rng.choice([2, 3, 4, 5]))]
        if rng.random() < 0.4:
            os_.append(os_[0])
        if rng.random() < 0.5:  # Only one thing changes.
            import copy
            for i in range(1, len(os_)):
                o = copy.copy(os_[i - 1])
                k = rng.choice(["mission", "limit", "seed", "importance", "ccf", "uncertainty", "probability"])
                setattr(o, k, {"mission": rng.choice([1.0, 50.0, 8760.0, 1e4]), "limit": rng.choice([1, 2, 5]), "seed": rng.randint(0, 99)}.get(k, not getattr(o, k) if k in ("importance", "ccf", "uncertainty", "probability") else None))
                if k == "uncertainty":
                    o.trials = o.trials or 20
                if o.mission and o.time_step and o.mission / o.time_step > 200:
                    o.mission = None
                os_[i] = o
        r = ctx.probe(["multi", ctx.path("p_"), spec(first)] + [spec(o) for o in os_] + ["--"] + files, timeout=90)
        if r.code != 0:
            ctx.fail("multi:exit%d" % r.code, "%s: %r" % ([spec(o) for o in [first] + os_], r.err[-800:]), stop=True)
        st = core.rd(ctx.path("p_state.txt")).decode("utf-8", errors="replace")
        states = re.split(r"^@@(?:state \w+|end)\n", st, flags=re.M)[1:-1]
        if len(states) != len(os_) + 1:
            ctx.fail("multi:states", "%d states of %d" % (len(states), len(os_) + 1), stop=True)
        for i, s in enumerate(states[1:]):
            ctx.count("states_compared")
            if s != states[0]:
                ctx.fail("multi:state:%s" % c16.first_diff(s, states[0]).split("'")[1].split(" ")[0] if "'" in c16.first_diff(s, states[0]) else "multi:state", "after analysis %d (%s): %s" % (i, spec(os_[i]), c16.first_diff(s, states[0])), stop=True)
        done = set()
        for i, o in enumerate(os_):
            if (o.mission or 8760.0) != (first.mission or 8760.0):
                ctx.count("mission_changes")
            f = ctx.scram(o.cli(rng) + ["-o", ctx.path("f%d.xml" % i)] + files, timeout=60)
            if f.code:
                ft_common.load(ctx, f, "f%d.xml" % i)
            self.same(ctx, "multi:report", core.rd(ctx.path("p_%d.xml" % (i + 1))), core.rd(ctx.path("f%d.xml" % i)), "analysis %d %s of %s" % (i, spec(o), [spec(x) for x in [first] + os_]), done)
        ctx.count("multi")
        if len(done) > 1:
            ctx.sig(*sorted(done))
        ctx.sample("\n".join(spec(o) for o in [first] + os_))

    def same(self, ctx, key, got, ref, note, done):
        a, b = c16.normal(got), c16.normal(ref)
        ctx.count("reports_compared")
        if not ref:
            if got:
                ctx.fail(key + ":extra", note)
            return
        if a != b:
            d = c16.first_diff(a, b)
            m = re.search(r"<([\w-]+)", d)
            ctx.fail("%s:%s" % (key, m.group(1) if m else "text"), "%s: in the history against alone: %s" % (note, d))
        done.add(hash(b))
