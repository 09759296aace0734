import core, mef, oracle, report, expr
from expr import Gen, Reject
from ft_common import *
import c10


def rounding(k, q, a, b):
    # RRW divides by a difference that may be only rounding noise.
    return q[-1] == "RRW" and (max(abs(float(a)), abs(float(b))) > 1e4 or min(abs(float(a)), abs(float(b))) == 0)


class Check(core.BaseCheck):
    ID = "C18"
    QUICK, THOROUGH = 900, 30000
    RULE = ("random models (fault trees with time-dependent events, sometimes event trees with house-event settings) with 1-3 alignments of 1-4 phases setting random house events; every section reported for a phase "
            "(products and their probabilities, totals, importance, curves, SIL, sequences) compared with the analysis of the same model without alignments whose house events and mission time are that phase's, and "
            "its total with the truth table at the phase's duration; one case in four also checks uncertainty (one phase) and non-trivial: a phase in an alignment of several, distinct by house states, fraction and functions")
    MIN = {"distinct": 1200, "phases_compared": 2000, "totals_compared": 1500, "house_changes": 1500, "event_tree_phases": 300, "curves": 200, "importance": 400}

    def model(self, rng, ctx, stats):
        coherent = rng.random() < 0.7
        while True:
            t, vars, vals = gen(rng, [2, 3, 4, 5, 6], coherent, houses=True)
            if t.houses:
                break
        T = rng.choice([8760.0, 100.0, 24.0, 1000.0])
        params = []
        g = Gen(rng, T, params)
        params.append(("P0", None, g.num(0.05 / T, 2 / T)))
        exprs = {}
        for v in vars:
            r = rng.random()
            if r < 0.25:
                e = g.make("float", (), rng.choice([rng.random(), 0.1, 1e-3]))
            elif r < 0.45:
                e = g.make("exponential", [g.make("param", (), params[0]), g.make("time")])
            else:
                while True:
                    try:
                        e = g.law()
                    except Reject:
                        continue
                    break
            exprs[v] = e
            t.basics[v] = e.xml()
        for nm, _, e in params:
            t.extra.append("<define-parameter name='%s'>%s</define-parameter>" % (nm, e.xml()))
        m = None
        if rng.random() < 0.4:
            while True:
                m = c10.Model(rng, True)
                m.coherent, m.stats = coherent, stats
                m.build(t)
                try:
                    for ie, tr in m.ies:
                        if tr is not None:
                            m.sequences(ie, tr, vars)
                except c10.TooBig:
                    continue
                break
        return t, vars, coherent, T, params, exprs, m

    def case(self, ctx, rng, idx):
        import collections
        t, vars, coherent, T, params, exprs, m = self.model(rng, ctx, collections.Counter())
        n = len(vars)
        base = dict(t.houses)
        als = []
        for a in range(rng.choice([1, 1, 2, 3])):
            k = rng.choice([1, 2, 2, 3, 4])
            w = [rng.choice([1, 1, 2, 3, 5, 10]) for _ in range(k)]
            fr = [x / sum(w) for x in w]
            if rng.random() < 0.3:
                fr = [round(x, 5) for x in fr]
            als.append(("A%d" % a, [("ph%d" % (rng.randrange(3) * 10 + j), f, [(h, rng.random() < 0.5) for h in rng.sample(list(base), rng.randint(0, len(base)))]
                                     + ([(rng.choice(list(base)), rng.random() < 0.5)] if rng.random() < 0.2 else [])) for j, f in enumerate(fr)]))
        axml = "".join("<define-alignment name='%s'>%s</define-alignment>" % (a, "".join(
            "<define-phase name='%s' time-fraction='%r'>%s</define-phase>" % (p, f, "".join(
                "<set-house-event name='%s'><constant value='%s'/></set-house-event>" % (h, "true" if s else "false") for h, s in st)) for p, f, st in phs)) for a, phs in als)

        def write(name, houses, extra):
            t.houses = houses
            if m:
                x = m.xml()
                return ctx.write(name, x.replace("</opsa-mef>", extra + "</opsa-mef>"))
            return ctx.write(name, mef.tree_xml(t).replace("</opsa-mef>", extra + "</opsa-mef>"))
        algo = rng.choice(["--bdd", "--bdd", "--zbdd", "--mocus"]) if coherent else "--bdd"
        args = [algo, "--limit-order", "40"]
        if algo != "--bdd" or rng.random() < 0.2:
            args.append(rng.choice(["--rare-event", "--mcub"]))
        elif not coherent and rng.random() < 0.5:
            args.append("--prime-implicants")
        step = 0
        opts = ["--probability"]
        if rng.random() < 0.6:
            opts.append("--importance")
        if rng.random() < 0.5:
            step = T * rng.choice([0.05, 0.11, 0.3])
            opts += ["--time-step", repr(step)]
            if rng.random() < 0.4:
                opts.append("--sil")
        if rng.random() < 0.07:
            opts = []
        f = write("al.xml", base, axml)
        ctx.sample(open(f).read())
        rep = load(ctx, ctx.scram(args + opts + ["--mission-time", repr(T), "-o", "out.xml", f], timeout=30))
        got = report.flatten(rep)
        by = {}
        for k, v in got.items():
            by.setdefault((k[3], k[4]), {})[k[:3] + k[5:]] = v
        want = {(a, p) for a, phs in als for p, _, _ in phs}
        if opts and set(by) - want:
            ctx.fail("phases", "results for %s, declared %s" % (sorted(map(str, set(by) - want)), sorted(want)), stop=True)
        for a, phs in als:
            for p, fr, st in phs:
                h = dict(base)
                h.update(st)
                ctx.count("phases_compared")
                ctx.count("house_changes", sum(h[x] != base[x] for x in h))
                f1 = write("one.xml", h, "")
                rep1 = load(ctx, ctx.scram(args + opts + ["--mission-time", repr(fr * T), "-o", "one.out", f1], timeout=30), path="one.out")
                one = {k[:3] + k[5:]: v for k, v in report.flatten(rep1).items()}
                mine = by.get((a, p), {})
                for k in mine:
                    ctx.count("curves", k[0] == "curve")
                    ctx.count("importance", k[0] == "importance")
                    ctx.count("event_tree_phases", k[0] == "initiating-event")
                d = report.diff(mine, one, abs_=1e-12 if "--importance" in opts or "--sil" in opts else 1e-14, ignore=rounding)
                if d:
                    ctx.fail("phase-differs:" + d.split("'")[1], "%s/%s (fraction %r, %s): %s (phase against its stand-alone model)" % (a, p, fr, h, d))
                vals = oracle.eval_gates(t.gates, h, vars)
                try:
                    ps = [expr.evaluate(exprs[v], lambda x: next(q.v for nm, _, q in params if nm == x), fr * T) for v in vars]
                except (Reject, ValueError, ZeroDivisionError, OverflowError):
                    ctx.count("evaluate_skipped")
                    continue
                for top in t.tops():
                    s = mine.get(("sum-of-products", top, None))
                    if s is None:
                        ctx.fail("missing-result", "%s/%s: no result for %s" % (a, p, top))
                        continue
                    if not (algo == "--bdd" and "--rare-event" not in args and "--mcub" not in args and opts):
                        continue
                    e = oracle.probability(vals[top], n, ps)
                    ctx.count("totals_compared")
                    if not oracle.close(float(s["probability"]), e, rel=5e-5, abs_=1e-10):
                        ctx.fail("total", "%s/%s %s: %s want %r" % (a, p, top, s["probability"], e))
                if len(phs) > 1:
                    ctx.sig(tuple(sorted(h.items())), fr, tuple(vals[x] for x in t.tops()))
