import math
import numpy as np
import core, mef, oracle
from ft_common import *

M = 60000   # reference sample size


def fx(x):
    return '<float value="%s"/>' % mef.num(x)


def deviate(rng, g):
    """(xml, mean, reference samples) of a distribution living well inside [0, 1]."""
    k = rng.choice(["uniform", "uniform", "normal", "lognormal3", "lognormal2", "beta", "gamma", "histogram"])
    if k == "uniform":
        a = rng.uniform(0, 0.4)
        b = rng.uniform(a + 0.05, 0.9)
        return "<uniform-deviate>%s%s</uniform-deviate>" % (fx(a), fx(b)), (a + b) / 2, g.uniform(a, b, M)
    if k == "normal":
        m = rng.uniform(0.2, 0.6)
        s = rng.uniform(0.1, 1) * min(m, 1 - m) / 7
        return "<normal-deviate>%s%s</normal-deviate>" % (fx(m), fx(s)), m, g.normal(m, s, M)
    if k == "lognormal3":
        m, ef, lv = rng.uniform(0.01, 0.1), rng.uniform(1.2, 2.5), rng.choice([0.95, 0.9])
        z = {0.95: 1.6448536269514722, 0.9: 1.2815515655446004}[lv]
        s = math.log(ef) / z
        return "<lognormal-deviate>%s%s%s</lognormal-deviate>" % (fx(m), fx(ef), fx(lv)), m, g.lognormal(math.log(m) - s * s / 2, s, M)
    if k == "lognormal2":
        mu, s = rng.uniform(-4, -2.5), rng.uniform(0.1, 0.5)
        return "<lognormal-deviate>%s%s</lognormal-deviate>" % (fx(mu), fx(s)), math.exp(mu + s * s / 2), g.lognormal(mu, s, M)
    if k == "beta":
        a, b = rng.uniform(1.5, 6), rng.uniform(2, 20)
        return "<beta-deviate>%s%s</beta-deviate>" % (fx(a), fx(b)), a / (a + b), g.beta(a, b, M)
    if k == "gamma":
        a, b = rng.uniform(1, 4), rng.uniform(0.005, 0.05)
        return "<gamma-deviate>%s%s</gamma-deviate>" % (fx(a), fx(b)), a * b, g.gamma(a, b, M)
    n = rng.randint(1, 4)
    bounds = sorted(rng.uniform(0, 0.9) for _ in range(n + 1))
    if min(b - a for a, b in zip(bounds, bounds[1:])) < 1e-3:
        return deviate(rng, g)
    w = [rng.uniform(0.1, 2) for _ in range(n)]
    x = "<histogram>%s%s</histogram>" % (fx(bounds[0]), "".join("<bin>%s%s</bin>" % (fx(b), fx(v)) for b, v in zip(bounds[1:], w)))
    tot = sum(w)
    mean = sum((a + b) / 2 * v for a, b, v in zip(bounds, bounds[1:], w)) / tot
    pick = g.choice(n, M, p=[v / tot for v in w])
    lo, hi = np.array(bounds[:-1]), np.array(bounds[1:])
    return x, mean, g.uniform(lo[pick], hi[pick])


class Check(core.BaseCheck):
    ID = "C08"
    QUICK, THOROUGH = 700, 20000
    RULE = ("random small fault trees whose event probabilities are random deviates, shared parameters, products of parameters, mission-time exponentials with uncertain rates, or constants; "
            "the report's uncertainty figures compared with an independent 60000-trial simulation (tolerance about 7 standard errors) and with each other (deviation, confidence range, error "
            "factor, quantile order and count, histogram bins and mass); non-trivial: non-zero deviation")
    MIN = {"distinct": 200, "shared_parameters": 100, "constant_models": 10}
    ASSUMPTIONS = ["statistical comparisons use 7 standard errors of both samples, so a distortion below that is not seen"]

    def case(self, ctx, rng, idx):
        g = np.random.default_rng(rng.getrandbits(32))
        coherent = rng.random() < 0.7
        t, vars, vals = gen(rng, [1 + 1, 3, 4, 5], coherent, ng=None)
        n = len(vars)
        none = rng.random() < 0.06
        params = []
        if not none:
            for i in range(rng.randint(0, 2)):
                params.append(deviate(rng, g))
        mission = rng.choice([8760, 100, 1000])
        ex, mean, smp, uses = {}, {}, {}, 0
        for v in vars:
            r = rng.random()
            if none or r < 0.2:
                c = rng.uniform(0.05, 0.8)
                ex[v], mean[v], smp[v] = c, c, np.full(M, c)
            elif params and r < 0.55:
                j = rng.randrange(len(params))
                uses += 1
                ex[v], mean[v], smp[v] = '<parameter name="P%d"/>' % j, params[j][1], params[j][2]
            elif params and r < 0.7:
                j = rng.randrange(len(params))
                c = rng.uniform(0.2, 1)
                uses += 1
                ex[v] = '<mul><parameter name="P%d"/>%s</mul>' % (j, fx(c))
                mean[v], smp[v] = params[j][1] * c, params[j][2] * c
            elif params and r < 0.8:
                j = rng.randrange(len(params))
                c = rng.uniform(0.5, 3) / mission
                uses += 1
                ex[v] = '<exponential><mul><parameter name="P%d"/>%s</mul><system-mission-time/></exponential>' % (j, fx(c))
                mean[v], smp[v] = 1 - math.exp(-params[j][1] * c * mission), 1 - np.exp(-params[j][2] * c * mission)
            else:
                x, m, s = deviate(rng, g)
                ex[v], mean[v], smp[v] = x, m, s
        if uses > 1:
            ctx.count("shared_parameters")
        t.basics = ex
        ps = "".join('<define-parameter name="P%d">%s</define-parameter>' % (i, p[0]) for i, p in enumerate(params))
        if rng.random() < 0.5:
            body = "<define-fault-tree name='ft'>%s</define-fault-tree><model-data>%s</model-data>" % (mef.tree_body(t), ps)
        else:
            body = "<define-fault-tree name='ft'>%s%s</define-fault-tree>" % (mef.tree_body(t), ps)
        f = ctx.write("m.xml", mef.wrap(body))
        N = rng.choice([400, 1000, 2000])
        nq, nb = rng.choice([1, 2, 5, 10, 20]), rng.choice([1, 5, 20])
        eff = rng.choice(["exact", "exact", "rare-event", "mcub"])
        algo = "bdd" if eff == "exact" else rng.choice(["bdd", "zbdd", "mocus"])
        args = [ALGO[algo], "--uncertainty", "--num-trials", str(N), "--num-quantiles", str(nq), "--num-bins", str(nb), "--mission-time", str(mission),
                "--seed", str(rng.randrange(1000)), "-o", "out.xml", f]
        if eff != "exact":
            args.append("--" + eff)
        r = ctx.scram(args, timeout=10, slow_ok=True)
        if r.timeout:
            return
        rep = load(ctx, r)
        ms = {}
        for key, el in rep.measures:
            if key[0] in ms:
                ctx.fail("duplicate-measure", "%s twice" % key[0])
            ms[key[0]] = el
        S = np.stack([np.clip(smp[v], 0, 1) for v in vars], 1)
        mv = np.array([[mean[v] for v in vars]])
        for top in t.tops():
            s = rep.sop(top)

            def total(A):
                if eff == "exact":
                    out = np.zeros(len(A))
                    for x in oracle.bits(vals[top]):
                        q = np.ones(len(A))
                        for i in range(n):
                            q *= A[:, i] if x >> i & 1 else 1 - A[:, i]
                        out += q
                    return out
                out = np.zeros(len(A)) if eff == "rare-event" else np.ones(len(A))
                for m in oracle.mcs(vals[top], n):
                    q = np.ones(len(A))
                    for i in range(n):
                        if m >> i & 1:
                            q *= A[:, i]
                    if eff == "rare-event":
                        out += q
                    else:
                        out *= 1 - q
                return np.minimum(out, 1) if eff == "rare-event" else 1 - out
            self.compare(ctx, "%s %s %s N=%d" % (top, algo, eff, N), ms.get(top), total(S), float(total(mv)[0]), s, N, nq, nb)
        ctx.sample(open(f).read())

    def compare(self, ctx, note, el, ref, point, s, N, nq, nb):
        if not oracle.close(s.p, point, abs_=1e-12):
            ctx.fail("point", "%s: point value %r want %r" % (note, s.p, point))
        if el is None:
            ctx.fail("missing", "%s: no measure" % note)
            return
        ctx.count("measures_checked")
        mean = float(el.find("mean").get("value"))
        sd = float(el.find("standard-deviation").get("value"))
        rm, rs = float(ref.mean()), float(ref.std())
        const = float(ref.max() - ref.min()) < 1e-14
        c = ref - rm
        m4 = float((c ** 4).mean())
        inv = 1.0 / N + 1.0 / len(ref)
        if const:
            ctx.count("constant_models")
            if not (sd < 1e-9 and oracle.close(mean, rm, abs_=1e-9)):
                ctx.fail("constant", "%s: mean %r sd %r for the constant %r" % (note, mean, sd, rm))
        else:
            ctx.sig(mean, sd)
            kurt = m4 / rs ** 4   # Heavy tails make the sample moments unreliable.
            if abs(mean - rm) > (7 if kurt < 30 else 12) * rs * math.sqrt(inv) + 2e-6 * abs(rm):
                ctx.fail("mean", "%s: mean %r reference %r (sd %r)" % (note, mean, rm, rs))
            se2 = math.sqrt(max(0.0, m4 - rs ** 4) * inv)
            top = max(float(e.get("upper-bound")) for e in el.find("histogram"))   # One rare far sample is legitimate.
            if kurt < 25 and abs(sd * sd - rs * rs) > 8 * se2 + 3 * rs * rs / N + 1e-5 * rs * rs + 1.5 * (top - rm) ** 2 / N:
                ctx.fail("deviation", "%s: sd %r reference %r (se of variance %r)" % (note, sd, rs, se2))
        cr = el.find("confidence-range")
        lo, hi = float(cr.get("lower-bound")), float(cr.get("upper-bound"))
        h = 1.96 * sd / math.sqrt(N)
        tol = 1e-5 * max(abs(mean), h)
        if abs(hi - min(1, mean + h)) > tol or abs(max(0, mean - h) - lo) > tol or cr.get("percentage") != "95":
            ctx.fail("confidence", "%s: [%r, %r] around %r want +-%r" % (note, lo, hi, mean, h))
        ef = float(el.find("error-factor").get("value"))
        if not oracle.close(ef, math.exp(1.96 * sd)):
            ctx.fail("error-factor", "%s: %r want %r" % (note, ef, math.exp(1.96 * sd)))
        q = el.find("quantiles")
        qs = [(int(e.get("number")), float(e.get("value")), float(e.get("lower-bound")), float(e.get("upper-bound"))) for e in q]
        if int(q.get("number")) != nq or len(qs) != nq:
            ctx.fail("quantiles", "%s: %d quantiles of %d" % (note, len(qs), nq))
        srt = np.sort(ref)
        prev = 0.0
        atoms = not const and (np.diff(srt) == 0).mean() > 0.01
        for i, (num, val, a, b) in enumerate(qs):
            if num != i + 1 or not oracle.close(val, (i + 1) / nq) or a != prev or b < a - 1e-12:
                ctx.fail("quantiles", "%s: quantile %d: %r" % (note, i + 1, (num, val, a, b)))
            prev = b
            pk = (i + 1) / nq
            if const:
                if not oracle.close(b, float(srt[0]), abs_=1e-9):
                    ctx.fail("quantile-constant", "%s: quantile %r of the constant %r" % (note, b, float(srt[0])))
            elif not atoms:
                eps = 1e-5 * abs(b)
                fl, fh = np.searchsorted(srt, b - eps) / len(srt), np.searchsorted(srt, b + eps, "right") / len(srt)
                t_ = 7 * math.sqrt(max(pk * (1 - pk), 0.01) * inv) + 0.06
                if pk < fl - t_ or pk > fh + t_:
                    ctx.fail("quantile-value", "%s: quantile %r at %r has mass %r..%r" % (note, pk, b, fl, fh))
                ctx.count("quantiles_compared")
        hist = el.find("histogram")
        bins = [(int(e.get("number")), float(e.get("value")), float(e.get("lower-bound")), float(e.get("upper-bound"))) for e in hist]
        if int(hist.get("number")) != nb or len(bins) != nb:
            ctx.fail("histogram", "%s: %d bins of %d" % (note, len(bins), nb))
        tot = 0.0
        for i, (num, val, a, b) in enumerate(bins):
            if num != i + 1 or b < a or (i and a != bins[i - 1][3]) or val < 0:
                ctx.fail("histogram", "%s: bin %d: %r" % (note, i + 1, (num, val, a, b)))
            tot += val
            if not const and not atoms:
                w = 1e-5 * abs(b)
                f1 = (np.searchsorted(srt, b - w) - np.searchsorted(srt, a + w)) / len(srt)
                f2 = (np.searchsorted(srt, b + w) - np.searchsorted(srt, a - w)) / len(srt)
                t_ = 7 * math.sqrt(max(f1 * (1 - f1), 1.0 / N) * inv) + 2.0 / N
                if val < f1 - t_ or val > f2 + t_:
                    ctx.fail("histogram-value", "%s: bin %r reference %r..%r" % (note, (num, val, a, b), f1, f2))
                ctx.count("bins_compared")
        f = float((srt == srt[-1]).mean())   # The top value itself lies outside the last, half-open bin.
        if tot > 1 + 1e-4 or (not const and tot < 1 - (f + 8 * math.sqrt(f / N) if f > 1.5 / len(srt) else 0) - 1.5 / N - 1e-4 * nb):
            ctx.fail("histogram-mass", "%s: total mass %r" % (note, tot))
