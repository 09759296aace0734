import core, mef, oracle
from ft_common import *


class Check(core.BaseCheck):
    ID = "C05"
    QUICK, THOROUGH = 2000, 50000
    RULE = ("random fault trees x {bdd, zbdd, mocus} x {rare-event, mcub, default approximation} x product limits; every figure of the report recomputed from the reported products "
            "and the model's probabilities (one case in 25 has hundreds to tens of thousands of products): total, product probability, order and contribution, numbers of products and product events, order distribution, adjustment warning; "
            "non-trivial: at least two products with different probabilities")
    MIN = {"distinct": 300, "products_checked": 3000, "adjusted_totals": 20, "more_than_1000_products": 10}

    def case(self, ctx, rng, idx):
        big = idx % 25 == 7
        coherent = big or rng.random() < 0.7
        if big:   # Hundreds to tens of thousands of products.
            t = many_products(rng)
            vars, vals = list(t.basics), None
        else:
            t, vars, vals = gen(rng, [2, 3, 4, 5, 6, 7, 8, 9, 10, 12], coherent)
            if rng.random() < 0.3:
                for v in vars:
                    t.basics[v] = rng.uniform(0.3, 1)
        p = t.basics
        f = ctx.write("m.xml", mef.tree_xml(t))
        algo = rng.choice(["bdd", "zbdd", "mocus"])
        approx = rng.choice(["rare-event", "mcub", None])
        limit = rng.choice([64, 64, 1, 2, 3])
        if big:
            algo, approx, limit = rng.choice(["bdd", "zbdd"]), rng.choice(["rare-event", "mcub"]), 64
        args = [ALGO[algo], "--probability", "--limit-order", str(limit), "-o", "out.xml"]
        if approx:
            args.append("--" + approx)
        r = ctx.scram(args + [f], timeout=20 if big else 10, slow_ok=big or not coherent)
        if r.timeout:
            return
        rep = load(ctx, r)
        eff = approx or ("exact" if algo == "bdd" else "rare-event")
        for top in t.tops():
            s = rep.sop(top)
            ps = [lit_p(q.lits, p) for q in s.products]
            total = sum(ps)
            if len(ps) > 1000:
                ctx.count("more_than_1000_products")
            note = "%s %s %s" % (top, algo, eff)
            const1 = len(s.products) == 1 and not s.products[0].lits
            if eff == "rare-event":
                e = min(1.0, total)
            elif eff == "mcub":
                q = 1.0
                for x in ps:
                    q *= 1 - x
                e = 1 - q
            else:
                e = oracle.probability(vals[top], len(vars), [p[v] for v in vars])
            if not oracle.close(s.p, e, abs_=1e-14):
                ctx.fail("total:" + eff, "%s: total %r want %r" % (note, s.p, e))
            if eff == "rare-event" and total > 1 + 1e-9:
                ctx.count("adjusted_totals")
                if "adjusted to 1" not in (s.warning or ""):
                    ctx.fail("adjust-warning", "%s: total above 1 without warning: %r" % (note, s.warning))
            if e < 0.999999 and "adjusted" in (s.warning or ""):
                ctx.fail("adjust-warning", "%s: warning at %r" % (note, e))
            if s.nproducts != len(s.products):
                ctx.fail("products", "%s: products=%d listed %d" % (note, s.nproducts, len(s.products)))
            names = {v for q in s.products for _, v in q.lits}
            if s.basic_events != len(names):
                ctx.fail("basic-events", "%s: basic-events=%d distinct %d" % (note, s.basic_events, len(names)))
            dist = {}
            for q in s.products:
                o = max(1, len(q.lits))
                dist[o] = dist.get(o, 0) + 1
                if q.order != o:
                    ctx.fail("order", "%s: %s order %d" % (note, q.lits, q.order))
                if len(q.lits) > limit:
                    ctx.fail("limit", "%s: %s beyond the limit %d" % (note, q.lits, limit))
            if s.products or s.dist:
                got = [int(x) for x in (s.dist or "").split()]
                want = [dist.get(i, 0) for i in range(1, max(dist, default=0) + 1)]
                if got != want:
                    ctx.fail("distribution", "%s: %s want %s" % (note, got, want))
            for q, x in zip(s.products, ps):
                ctx.count("products_checked")
                if not oracle.close(q.p, x, abs_=1e-300):
                    ctx.fail("product-probability", "%s: %s %r want %r" % (note, q.lits, q.p, x))
                c = x / total if total else 0.0
                if (q.contrib is None) != (total == 0) or total and not oracle.close(q.contrib, c, abs_=1e-300):
                    ctx.fail("contribution", "%s: %s %r want %r" % (note, q.lits, q.contrib, c))
            ctx.count("runs_" + eff)
            if len(set(ps)) > 1:
                ctx.sig(eff, limit, tuple(sorted(ps)))
        ctx.sample(open(f).read())
