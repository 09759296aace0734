import math
import numpy as np
from scipy import stats
import core, expr
from expr import Gen, Reject, Node


def dist(n):
    """(cdf, mean, variance, bounded) of a deviate by its documented parameters (arguments at their mean)."""
    a = [x.v for x in n.args]
    if n.op == "uniform-deviate":
        d = stats.uniform(a[0], a[1] - a[0])
    elif n.op == "normal-deviate":
        d = stats.norm(a[0], a[1])
    elif n.op == "lognormal-deviate":
        if len(a) == 3:
            s = math.log(a[1]) / stats.norm.ppf(a[2])
            m = math.log(a[0]) - s * s / 2
        else:
            m, s = a
        d = stats.lognorm(s, scale=math.exp(m))
    elif n.op == "gamma-deviate":
        d = stats.gamma(a[0], scale=a[1])
    elif n.op == "beta-deviate":
        d = stats.beta(a[0], a[1])
    else:
        nb, w = n.data
        d = stats.rv_histogram((np.array(a[nb:]), np.array(a[:nb])), density=False)
    return d.cdf, float(d.mean()), float(d.var())


BOUNDED = {"uniform-deviate", "histogram"}


def bounded(n, table):
    if n.op == "param":
        return bounded(table[n.data[0]], table)
    if n.op in expr.DEVIATES:
        return n.op in BOUNDED
    return all(bounded(a, table) for a in n.args)


class Check(core.BaseCheck):
    ID = "C12"
    QUICK, THOROUGH = 500, 20000
    RULE = ("random deviate parameters of every distribution (arguments constant, composite or themselves uncertain) and random composite parameters over them; the real objects are reset and sampled "
            "for up to 4000 trials; the recorded samples are tested against the declared distribution (Kolmogorov-Smirnov, mean, correlation), every composite sample is recomputed from the samples "
            "of its leaves in that trial, repeated sampling within a trial must repeat the value, resets must renew it, and samples must lie in the tool's own interval where no tail is truncated; "
            "non-trivial: a deviate parameter, distinct by its distribution")
    MIN = {"distinct": 500, "composite_samples": 100000, "interval_samples": 50000, "trials": 100000}
    ASSUMPTIONS = ["distribution tests reject at a significance of 1e-11 per parameter, so small distortions (below about 0.05 in distribution) pass"]

    def discrete(self, g, rng):
        """Functions without monotonicity over discretised samples, so that their special values do occur."""
        def whole():
            nm, _, e = rng.choice(g.params)
            p = g.make("param", (), (nm, None, e))
            if rng.random() < 0.3:
                p = g.make("mul", [p, g.make("float", (), rng.choice([2.0, 3.0, -2.0, 5.0]))])
            if rng.random() < 0.3:
                p = g.make("add", [p, g.make("int", (), rng.randint(-2, 2))])
            return g.make(rng.choice(["floor", "ceil"]), [p])
        k = rng.randrange(8)
        if k < 3:
            op = rng.choice(["eq", "df", "and", "or", "lt", "geq"])
            b = whole() if rng.random() < 0.4 else g.make("int", (), rng.randint(-2, 2))
            return g.make(op, [whole(), b])
        if k == 3:
            return g.make("not", [whole()])
        if k == 4:
            return g.make("mod", [whole(), g.make("int", (), rng.choice([2, 3, 5, -2, -3, 1]))])
        if k == 5:
            return g.make(rng.choice(["abs", "cosh", "tan", "cos", "sin"]), [g.make("mul", [whole(), g.make("float", (), rng.uniform(-1, 1))])])
        if k == 6:
            w = whole()
            e = rng.choice([2, 3, 4, 1])
            n = Node("pow", [w, g.make("int", (), e)])
            n.exact, n.v = True, w.v ** e
            lo, hi = w.iv
            c = [lo ** e, hi ** e] + ([0.0] if lo < 0 < hi else [])
            n.iv = (min(c), max(c))
            if max(abs(lo), abs(hi)) > 20:
                raise Reject()
            return n
        return g.make("switch", [g.make("eq", [whole(), g.make("int", (), 0)]), g.leaf(), g.leaf()])

    def case(self, ctx, rng, idx):
        T = rng.choice([8760.0, 100.0, 10.0])
        params, table = [], {}
        g = Gen(rng, T, params, nested=rng.random() < 0.5)
        nd = rng.randint(1, 5)
        while len(params) < nd:
            try:
                e = g.deviate()
            except Reject:
                continue
            if e.op == "gamma-deviate" and e.args[0].v < 0.3 or e.op == "beta-deviate" and min(e.args[0].v, e.args[1].v) < 0.3:
                continue
            params.append(("d%d" % len(params), None, e))
        g.nested = False
        nc = rng.randint(1, 6)
        for _ in range(200):
            if len(params) >= nd + nc:
                break
            try:
                if rng.random() < 0.35:
                    e = self.discrete(g, rng)
                else:
                    e = g.law() if rng.random() < 0.15 else g.gen(rng.choice([1, 2, 2, 3]))
            except Reject:
                continue
            if not e.dev and rng.random() < 0.8:
                continue
            params.append(("c%d" % len(params), None, e))
        table = {nm: e for nm, _, e in params}
        defs = ["<define-parameter name='%s'>%s</define-parameter>" % (nm, e.xml()) for nm, _, e in params]
        rng.shuffle(defs)
        f = ctx.write("m.xml", "<?xml version='1.0'?>\n<opsa-mef><model-data>\n%s\n</model-data></opsa-mef>\n" % "\n".join(defs))
        N = rng.choice([300, 1000, 4000])
        out = ctx.path("o.txt")
        r = ctx.probe(["expr", out, str(N), str(rng.randrange(10 ** 6)), repr(T), "0", f], timeout=60)
        if r.code != 0:
            ctx.fail("rejected", "valid deviates rejected: %s" % r.err.decode(errors="replace")[-1500:], stop=True)
        names, iv, rows, after = [], {}, [], {}
        for line in core.rd(out).decode().splitlines():
            w = line.split()
            if w[0] == "param":
                names.append(w[1])
                iv[w[1]] = (float(w[2]), float(w[3]), float(w[4]), w[5] == "1")
            elif w[0] == "trial":
                rows.append([float(x) for x in w[1:]])
            elif w[0] == "unstable":
                ctx.fail("unstable", "trial %s: repeated sampling of %s gives another value: %s" % (w[1], w[2], table[w[2]].xml()))
            elif w[0] == "after":
                after[w[1]] = float(w[2])
        if len(rows) != N or set(names) != set(table):
            ctx.fail("trace", "%d trials of %d, parameters %s" % (len(rows), N, names), stop=True)
        ctx.count("trials", N)
        S = np.array(rows)
        col = {nm: S[:, i] for i, nm in enumerate(names)}
        for nm, e in table.items():
            v, lo, hi, dev = iv[nm]
            if after[nm] != v:
                ctx.fail("value-changed", "%s: value %r before and %r after sampling" % (nm, v, after[nm]))
            if dev != e.dev:
                ctx.fail("flag", "%s: deviate flag %r: %s" % (nm, dev, e.xml()))
            if not (lo - 1e-9 * max(1, abs(lo)) <= v <= hi + 1e-9 * max(1, abs(hi))) and e.op != "time":
                if e.op != "beta-deviate" and e.op != "gamma-deviate":
                    ctx.fail("mean-outside:" + e.op, "%s: value %r outside [%r, %r]: %s" % (nm, v, lo, hi, e.xml()))
            if not e.dev:
                if np.any(col[nm] != v):
                    ctx.fail("constant-sample", "%s: constant %r sampled as %r" % (nm, v, col[nm][:3]))
                continue
            if bounded(e, table):
                ctx.count("interval_samples", N)
                tol = 1e-9 * max(1, abs(lo), abs(hi))
                bad = (col[nm] < lo - tol) | (col[nm] > hi + tol)
                if bad.any():
                    ctx.fail("outside:" + e.op, "%s: sample %r outside [%r, %r]: %s" % (nm, col[nm][bad][0], lo, hi, e.xml()))
        ds = []
        for nm, e in table.items():
            if e.op in expr.DEVIATES:
                ds.append(nm)
                cdf, mean, var = dist(e)
                x = np.sort(col[nm])
                c = cdf(x)
                k = np.arange(N)
                D = float(max(np.max(c - k / N), np.max((k + 1) / N - c)))
                ctx.sig(nm, e.op, tuple(a.v for a in e.args))
                ctx.count("dist_" + e.op)
                if D > 3.6 / math.sqrt(N):
                    ctx.fail("distribution:" + e.op, "%s: KS distance %.4f over %d samples (mean %r sd %r, declared %r %r): %s" % (nm, D, N, x.mean(), x.std(), mean, math.sqrt(var), e.xml()))
                heavy = e.op == "lognormal-deviate" and var > mean ** 2
                if not heavy and abs(x.mean() - mean) > 8 * math.sqrt(var / N) + 3 * math.sqrt(var) / N ** 0.75:
                    ctx.fail("sample-mean:" + e.op, "%s: mean %r declared %r (sd %r): %s" % (nm, x.mean(), mean, math.sqrt(var), e.xml()))
                if not oracle_close(iv[nm][0], mean):
                    ctx.fail("mean:" + e.op, "%s: value %r declared mean %r: %s" % (nm, iv[nm][0], mean, e.xml()))
                if len(np.unique(col[nm])) < 0.9 * N:
                    ctx.fail("not-renewed", "%s: only %d distinct values in %d trials: %s" % (nm, len(np.unique(col[nm])), N, e.xml()))
                y = stats.norm.ppf(np.clip(cdf(col[nm]), 1e-6, 1 - 1e-6))
                for lag in (1, 2):
                    cc = float(np.corrcoef(y[:-lag], y[lag:])[0, 1])
                    if abs(cc) > 7.5 / math.sqrt(N):
                        ctx.fail("autocorrelation", "%s: lag %d correlation %.3f: %s" % (nm, lag, cc, e.xml()))
        for i in range(len(ds)):
            for j in range(i):
                a, b = stats.rankdata(col[ds[i]]), stats.rankdata(col[ds[j]])
                cc = float(np.corrcoef(a, b)[0, 1])
                if abs(cc) > 7.5 / math.sqrt(N):
                    ctx.fail("dependent", "%s and %s: correlation %.3f" % (ds[i], ds[j], cc))
        comp = [nm for nm, e in table.items() if e.op not in expr.DEVIATES and e.dev]
        for i in range(min(N, 400)):
            env = {nm: S[i, k] for k, nm in enumerate(names)}
            for nm in comp:
                try:
                    w = expr.evaluate(table[nm], env.__getitem__, T)
                except (Reject, ValueError, ZeroDivisionError, OverflowError):
                    ctx.count("sample_skipped")
                    continue
                ctx.count("composite_samples")
                if not (abs(w - env[nm]) <= 1e-6 * max(1e-3, abs(w)) + 1e-9):
                    ctx.fail("sample-value:" + table[nm].op, "trial %d: %s sampled %r, its leaves give %r: %s" % (i, nm, env[nm], w, table[nm].xml()))
                    break
        ctx.sample(defs[0])


def oracle_close(a, b):
    return abs(a - b) <= 1e-7 * max(abs(a), abs(b), 1e-9)
