import core, mef, oracle
from ft_common import *


class Check(core.BaseCheck):
    ID = "C06"
    QUICK, THOROUGH = 2000, 50000
    RULE = ("random coherent and non-coherent fault trees with importance analysis under the exact (BDD), rare-event and MCUB calculators and product limits (one case in 25 with hundreds to tens of thousands of products); every factor recomputed "
            "from the truth table (exact) or the reported products (approximations); non-trivial: at least two events listed with different MIF")
    MIN = {"distinct": 300, "events_checked": 4000, "zero_totals": 5, "more_than_1000_products": 10}

    def case(self, ctx, rng, idx):
        big = idx % 25 == 7
        coherent = big or rng.random() < 0.5
        if big:   # Hundreds to tens of thousands of products.
            t = many_products(rng)
            vars, vals = list(t.basics), None
        else:
            t, vars, vals = gen(rng, [2, 3, 4, 5, 6, 7, 8, 9, 10, 12] if coherent else [2, 3, 4, 5, 6, 7, 8, 9], coherent)
        if big:
            pass
        elif rng.random() < 0.5:
            for v in vars:
                t.basics[v] = rng.uniform(0.01, 0.7)
        elif rng.random() < 0.1:
            for v in vars:
                t.basics[v] = 0.0
        p = t.basics
        n = len(vars)
        f = ctx.write("m.xml", mef.tree_xml(t))
        eff = rng.choice(["exact", "exact", "rare-event", "mcub"])
        if big:
            eff = rng.choice(["rare-event", "mcub"])
        algo = "bdd" if eff == "exact" else rng.choice(["bdd", "zbdd", "mocus"])
        prime = eff == "exact" and n <= 7 and rng.random() < 0.3
        limit = rng.choice([64, 64, 64, 1, 2])
        if big:
            algo, limit = rng.choice(["bdd", "zbdd"]), 64
        args = [ALGO[algo], "--importance", "--limit-order", str(limit), "-o", "out.xml"]
        if prime:
            args.append("--prime-implicants")
        if eff != "exact":
            args.append("--" + eff)
        r = ctx.scram(args + [f], timeout=20 if big else 10, slow_ok=big or not coherent)
        if r.timeout:
            return
        rep = load(ctx, r)
        imps = {}
        for key, el, evs in rep.importance:
            imps.setdefault(key[0], []).append((el, evs))
        for top in t.tops():
            s = rep.sop(top)
            note = "%s %s %s limit %d prime %d" % (top, algo, eff, limit, prime)
            if len(imps.get(top, [])) != 1:
                ctx.fail("sections", "%s: %d importance sections" % (note, len(imps.get(top, []))))
                continue
            el, evs = imps[top][0]
            occ = {}
            for q in s.products:
                for _, v in q.lits:
                    occ[v] = occ.get(v, 0) + 1
            names = [v for v, _ in evs]
            if sorted(names) != sorted(occ):
                ctx.fail("events", "%s: listed %s in products %s" % (note, sorted(names), sorted(occ)))
                continue
            if int(el.get("basic-events")) != len(names):
                ctx.fail("count", "%s: basic-events=%s listed %d" % (note, el.get("basic-events"), len(names)))

            def total(pp):
                ps = [lit_p(q.lits, pp) for q in s.products]
                if eff == "rare-event":
                    return min(1.0, sum(ps))
                r = 1.0
                for x in ps:
                    r *= 1 - x
                return 1 - r
            P = oracle.probability(vals[top], n, [p[v] for v in vars]) if eff == "exact" else total(p)
            if P == 0:
                ctx.count("zero_totals")
            if len(s.products) > 1000:
                ctx.count("more_than_1000_products")
            seen = []
            for v, got in evs if not big else rng.sample(evs, min(8, len(evs))):
                ctx.count("events_checked")
                x = p[v]
                if eff == "exact":
                    hi, lo = oracle.cofactors(vals[top], vars.index(v), n)
                    ps = [p[w] for w in vars]
                    mif = oracle.probability(hi, n, ps) - oracle.probability(lo, n, ps)
                else:
                    mif = total(dict(p, **{v: 1.0})) - total(dict(p, **{v: 0.0}))
                    if abs(sum(lit_p(q.lits, dict(p, **{v: 1.0})) for q in s.products) - 1) < 1e-6:
                        continue   # On the edge of the adjustment.
                seen.append(mif)
                zero = P == 0
                want = {"occurrence": occ[v], "probability": x, "MIF": mif,
                        "CIF": 0 if zero else x * mif / P, "RAW": 0 if zero else 1 + (1 - x) * mif / P}
                want["DIF"] = 0 if zero else x * want["RAW"]
                at = 3e-13   # cancellation in differences of totals
                tol = {"occurrence": 0, "probability": 1e-300, "MIF": at, "CIF": at * 4 / P if P else 0, "RAW": at * 4 / P if P else 0, "DIF": at * 4 / P if P else 0}
                rel = 1e-14 / P if P else 0   # the total itself may come from 1 - (1 - P)
                for k, w in want.items():
                    if k in ("CIF", "RAW", "DIF"):
                        tol[k] += rel * abs(w)
                    if not oracle.close(got[k], w, abs_=tol[k]):
                        ctx.fail("%s:%s" % (k, eff), "%s: %s %s = %r want %r (P=%r)" % (note, v, k, got[k], w, P))
                d = P - x * mif
                if zero:
                    if got["RRW"] != 0:
                        ctx.fail("RRW:" + eff, "%s: %s RRW %r at zero total" % (note, v, got["RRW"]))
                elif abs(d) > 1e-9 * P and abs(d) > 1e-12:
                    if not oracle.close(got["RRW"], P / d, rel=2e-5 + 1e-12 / abs(d) + rel):
                        ctx.fail("RRW:" + eff, "%s: %s RRW %r want %r" % (note, v, got["RRW"], P / d))
            if len(set(seen)) > 1:
                ctx.sig(eff, vals and vals[top], tuple(p.values()))
            ctx.count("runs_" + eff)
        ctx.sample(open(f).read())
