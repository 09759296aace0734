import math
import core, mef, oracle, expr
from expr import Gen, Reject
from ft_common import *

PFD = [1e-5, 1e-4, 1e-3, 1e-2, 1e-1, 1]
PFH = [1e-9, 1e-8, 1e-7, 1e-6, 1e-5, 1]


def bands(ts, ps, bounds):
    """Share of time the piecewise-linear p(t) spends in each (lower, upper] band."""
    out = [0.0] * len(bounds)
    for (t0, p0), (t1, p1) in zip(zip(ts, ps), zip(ts[1:], ps[1:])):
        lo, hi, dt = min(p0, p1), max(p0, p1), t1 - t0
        b0 = 0.0
        for i, b1 in enumerate(bounds):
            if hi == lo:
                if b0 < lo <= b1 or (lo == 0 and i == 0):
                    out[i] += dt
            else:
                x = min(hi, b1) - max(lo, b0)
                if x > 0:
                    out[i] += dt * x / (hi - lo)
            b0 = b1
    tot = ts[-1] - ts[0]
    return [x / tot for x in out]


class Check(core.BaseCheck):
    ID = "C09"
    QUICK, THOROUGH = 2500, 60000
    RULE = ("random trees whose events follow constant, exponential, GLM, Weibull, periodic-test or composed time laws (shared parameters, explicit time factors), random mission time and step "
            "(dividing it or not), all algorithms and approximations; every curve point compared with the independent evaluator at that time, SIL averages and band fractions with the "
            "integrals of the independently computed curve; non-trivial: a curve with more than two distinct values")
    MIN = {"distinct": 300, "points_checked": 5000, "sil_checked": 300, "boundary_constants": 20}
    ASSUMPTIONS = ["PFH bands are compared while p(t)/t stays within [0, 1]"]

    def case(self, ctx, rng, idx):
        coherent = rng.random() < 0.7
        t, vars, vals = gen(rng, [2, 2, 3, 3, 4, 5, 6], coherent)
        if rng.random() < 0.05:
            t = mef.Tree()
            t.gates = {"g1": mef.Gate("null", [(False, "b", "b0")])}
            t.basics, vars = {"b0": 0.1}, ["b0"]
            vals = oracle.eval_gates(t.gates, t.houses, vars)
        n = len(vars)
        T = rng.choice([8760.0, 100.0, 1000.0, 24.0, 10.0, rng.uniform(5, 9000)])
        zero = rng.random() < 0.04
        if zero:
            T = 0.0
        k = rng.choice([1, 2, 3, 4, 5, 8, 10, 16, 33])
        step = rng.choice([T / k, T / (k + rng.random()), T / (k + 0.5), float(max(1, round(T / k))), T * 1.5, T]) or 1.0
        params = []
        g = Gen(rng, T, params)
        for i in range(rng.randint(0, 2)):
            params.append(("P%d" % i, None, g.num(0.05 / (T or 1), 2 / (T or 1))))
        const = rng.random() < 0.12
        exprs = {}
        for v in vars:
            r = rng.random()
            if const:
                c = rng.choice(PFD[:-1] + [1e-3, 0.1, 0.01, 0.05, 0.0, 1.0])
                exprs[v] = g.make("float", (), c)
                ctx.count("boundary_constants")
                continue
            for _ in range(50):
                try:
                    if r < 0.15:
                        e = g.make("float", (), rng.choice([rng.random(), 1e-3, 0.01, 1e-6]))
                    elif r < 0.45 and params:
                        e = g.make("exponential", [g.make("param", (), (lambda p: (p[0], None, p[2]))(rng.choice(params))), g.make("time")])
                    elif r < 0.55:
                        e = g.make("mul", [g.law(), g.make("float", (), rng.choice([0.5, 0.01, 1e-4]))])
                    elif r < 0.62:
                        e = g.make("ite", [g.make("lt", [g.make("time"), g.make("float", (), T * rng.random())]), g.law(), g.law()])
                    elif r < 0.68 and T:
                        e = g.make("div", [g.make("time"), g.make("float", (), T * rng.uniform(1, 3))])
                    else:
                        e = g.law()
                    if 0 <= e.iv[0] and e.iv[1] <= 1 and 0 <= e.v <= 1:
                        exprs[v] = e
                        break
                except Reject:
                    continue
            else:
                exprs[v] = g.make("float", (), 0.3)
        t.basics = {v: e.xml() for v, e in exprs.items()}
        pdefs = "".join("<define-parameter name='%s'>%s</define-parameter>" % (a, e.xml()) for a, _, e in params)
        f = ctx.write("m.xml", mef.wrap("<define-fault-tree name='ft'>%s</define-fault-tree><model-data>%s</model-data>" % (mef.tree_body(t), pdefs)))
        algo = rng.choice(["bdd", "bdd", "zbdd", "mocus"])
        eff = rng.choice(["exact", "rare-event", "mcub"]) if algo == "bdd" else rng.choice(["rare-event", "mcub", "default"])
        sil = rng.random() < 0.75
        args = [ALGO[algo], "--mission-time", repr(T), "--time-step", repr(step), "-o", "out.xml", f] + (["--sil"] if sil else ["--probability"])
        if eff in ("rare-event", "mcub"):
            args.append("--" + eff)
        if rng.random() < 0.3:
            args.append("--importance")
        r = ctx.scram(args, timeout=10, slow_ok=True)
        if r.timeout:
            return
        rep = load(ctx, r)
        ts = []
        x = 0.0
        while x < T:
            ts.append(x)
            x += step
        ts.append(T)
        # Probabilities of the events at each time.
        pv = []
        for x in ts:
            row = []
            ref = {a: e for a, _, e in params}
            try:
                look = lambda nm: expr.evaluate(ref[nm], look, x)
                for v in vars:
                    q = expr.evaluate(exprs[v], look, x)
                    if not -1e-12 < q < 1 + 1e-12:
                        raise Reject()
                    row.append(min(1.0, max(0.0, q)))
            except (Reject, ValueError, ZeroDivisionError):
                row = None
            pv.append(row)
        curves = {key[0]: pts for key, _, pts in rep.curves}
        if len(curves) != len(rep.curves):
            ctx.fail("duplicate-curve", "curves %s" % [k for k, _, _ in rep.curves])
        sils = {key[0]: el for key, el in rep.sils}
        for top in t.tops():
            mine = []
            mc = oracle.mcs(vals[top], n) if eff != "exact" else None
            for row in pv:
                if row is None:
                    mine.append(None)
                elif eff == "exact":
                    mine.append(oracle.probability(vals[top], n, row))
                else:
                    pr = [math.prod(row[i] for i in range(n) if m >> i & 1) for m in mc]
                    mine.append(1 - math.prod(1 - q for q in pr) if eff == "mcub" else min(1.0, math.fsum(pr)))
            pts = curves.get(top)
            note = "%s %s %s T=%r step=%r" % (top, algo, eff, T, step)
            if pts is None or len(pts) != len(ts):
                ctx.fail("points", "%s: %s points of %d" % (note, pts and len(pts), len(ts)))
                continue
            for (X, Y), x, p in zip(pts, ts, mine):
                if not oracle.close(X, x, abs_=1e-6):
                    ctx.fail("time", "%s: point at %r want %r" % (note, X, x))
                if p is not None:
                    ctx.count("points_checked")
                    if not oracle.close(Y, p, abs_=1e-12):
                        ctx.fail("curve", "%s: p(%r) = %r want %r" % (note, x, Y, p))
            if mine[-1] is not None and not oracle.close(rep.sop(top).p, mine[-1], abs_=1e-12):
                ctx.fail("total", "%s: total %r want %r" % (note, rep.sop(top).p, mine[-1]))
            if len(set(mine)) > 2:
                ctx.sig(vals[top], tuple(pts))
            el = sils.get(top)
            if bool(sil) != (el is not None):
                ctx.fail("sil-presence", "%s: sil %r requested %r" % (note, el is not None, sil))
                continue
            if el is None or None in mine:
                continue
            ctx.count("sil_checked")
            one = [i for i in range(n) if vals[top] == oracle.var_mask(i, n)]
            self.sil(ctx, note, el, ts, mine, pv[0][one[0]] if one and eff != 'mcub' else None)
        ctx.sample(open(f).read())

    def sil(self, ctx, note, el, ts, ps, single):
        hist = el.findall("histogram")
        if len(hist) != 2:
            ctx.fail("sil-histograms", "%s: %d histograms" % (note, len(hist)))
            return
        got = []
        for h, bounds in zip(hist, (PFD, PFH)):
            lo = 0.0
            row = []
            for i, b in enumerate(h):
                if int(b.get("number")) != i + 1 or float(b.get("lower-bound")) != lo or float(b.get("upper-bound")) != bounds[i]:
                    ctx.fail("sil-bounds", "%s: bin %r" % (note, b.attrib))
                lo = bounds[i]
                row.append(float(b.get("value")))
            if len(row) != 6:
                ctx.fail("sil-bounds", "%s: %d bins" % (note, len(row)))
                return
            got.append(row)
        pfd, pfh = float(el.get("PFD-avg")), float(el.get("PFH-avg"))
        if len(ts) == 1:
            p = ps[0]
            want = [1.0 if (b0 < p <= b1 or (p == 0 and b0 == 0)) else 0.0 for b0, b1 in zip([0] + PFD, PFD)]
            if not oracle.close(pfd, p) or (got[0] != want and min(abs(p - b) / b for b in PFD) > 1e-9):
                ctx.fail("sil-point", "%s: single point p=%r: PFD %r %r" % (note, p, pfd, got[0]))
            ctx.count("single_point")
            return
        tr = lambda ys: math.fsum((a + b) / 2 * (y - x) for a, b, x, y in zip(ys, ys[1:], ts, ts[1:])) / (ts[-1] - ts[0])
        if not oracle.close(pfd, tr(ps), abs_=1e-13):
            ctx.fail("pfd", "%s: PFD-avg %r want %r" % (note, pfd, tr(ps)))
        hs = [p / x if x else 0.0 for p, x in zip(ps, ts)]
        if not oracle.close(pfh, tr(hs), abs_=1e-16):
            ctx.fail("pfh", "%s: PFH-avg %r want %r" % (note, pfh, tr(hs)))
        near = lambda ys, bounds: any(abs(a - b) < 1e-9 * b and abs(c - b) < 1e-9 * b and not (a == c) for a, c in zip(ys, ys[1:]) for b in bounds)
        for name, ys, bounds, row in (("pfd", ps, PFD, got[0]), ("pfh", hs, PFH, got[1])):
            if max(ys) > 1:
                ctx.count("beyond_bands")
                continue
            const = any(a == c and any(abs(a - b) < 1e-9 * b for b in bounds) for a, c in zip(ys, ys[1:]))
            if const and single and name == "pfd" and set(ys) == {single}:   # Free of rounding: the band is known.
                const = False
                ctx.count("on_boundary_checked")
            if near(ys, bounds) or const:
                ctx.count("boundary_skipped")
                if abs(sum(row) - 1) > 1e-4:
                    ctx.fail(name + "-sum", "%s: fractions %r sum to %r" % (note, row, sum(row)))
                continue
            want = bands(ts, ys, bounds)
            for i in range(6):
                if abs(row[i] - want[i]) > 1e-4 * max(want[i], 1e-3) + 1e-7:
                    ctx.fail(name + "-fractions", "%s: fractions %r want %r" % (note, row, want))
                    break
            if abs(sum(row) - 1) > 1e-4:
                ctx.fail(name + "-sum", "%s: fractions %r sum to %r" % (note, row, sum(row)))
