import glob, os
import build, core, large, mef, oracle
from ft_common import *

BUNDLED = None


def bundled():
    """Models of /repo/input that are plain fault trees, by size."""
    global BUNDLED
    if BUNDLED is None:
        top = os.path.join(build.REPO, "input")
        sets = [[p] for p in sorted(glob.glob(top + "/Aralia/*.xml"))]
        for d in ("Baobab/baobab1", "Baobab/baobab2", "CEA9601/CEA9601", "Chinese/chinese"):
            sets.append(["%s/%s.xml" % (top, d), "%s/%s-basic-events.xml" % (top, d)])
        sets += [[top + "/Autogenerated/200_event.xml"]]
        BUNDLED = [s for s in sets if all(os.path.exists(p) for p in s) and os.path.getsize(s[0]) < 100000]
    return BUNDLED


class Check(core.BaseCheck):
    ID = "C21"
    QUICK, THOROUGH = 420, 9000
    RULE = ("fault trees of 20 to 400 events - generated from redundant trains over shared support systems, votes, bridges, factors, ladders, chains, switches, parities and guards, and the bundled benchmark models, untouched and edited - run with "
            "BDD, ZBDD and MOCUS, minimal cut sets and prime implicants; products, numbers, total probability under exact, rare-event and MCUB calculators and Birnbaum importance compared with an independent BDD/ZBDD engine (itself compared with truth tables); "
            "non-trivial: a tree beyond 16 events with more than one product")
    MIN = {"distinct": 60, "bundled": 10, "large": 100, "products": 20000, "engine_checked": 10}

    def build(self):
        env = build.build_core("asan")
        env["engine"] = large.compile_engine(build)
        return env

    def case(self, ctx, rng, idx):
        if idx % 12 == 0:
            return self.check_engine(ctx, rng)
        if idx % 5 == 1:
            src = rng.choice(bundled())
            t = large.load(src)
            if t is None:
                return ctx.count("bundled_skipped")
            coherent = all(q.op in ("and", "or", "atleast", "null") and not any(a[0] for a in q.args) for q in t.gates.values())
            if rng.random() < .6:
                large.mutate(rng, t, rng.choice([1, 2, 5, 20]))
                ctx.count("edited")
            for b, p in t.basics.items():
                if p is None or rng.random() < .1:
                    t.basics[b] = float("%.6g" % rng.choice([rng.uniform(.01, .3), 10 ** rng.uniform(-5, -1)]))
            ctx.count("bundled")
        else:
            coherent = rng.random() < .55
            t = large.generate(rng, coherent, rng.choice([20, 30, 40, 60, 90, 140, 250, 400] if coherent else [16, 20, 24, 30, 40, 55, 80]))
        self.decide(ctx, rng, t, coherent)

    def check_engine(self, ctx, rng):
        """The reference itself against truth tables."""
        t, vars, vals = gen(rng, [3, 5, 7, 8, 9], rng.random() < .4)
        n = len(vars)
        for top in t.tops():
            for prime in [0, 1] if n <= 7 else [0]:
                p, mif, total, _, _, sets = large.reference(ctx.env, t, [(top, 50, prime, 10 ** 6, vars)])[0]
                want = {frozenset((neg, vars[i]) for neg, i in q) for q in oracle.primes(vals[top], n)} if prime else lits_of(oracle.mcs(vals[top], n), vars)
                ps = [t.basics[v] for v in vars]
                ok = sets == want and total == len(want) and oracle.close(p, oracle.probability(vals[top], n, ps), 1e-9, 1e-13)
                for i, v in enumerate(vars):
                    hi, lo = (oracle.probability(vals[top], n, ps[:i] + [x] + ps[i + 1:]) for x in (1.0, 0.0))
                    ok &= abs(mif[v] - (hi - lo)) < 1e-9
                if not ok:
                    raise core.HarnessError("the reference engine is wrong on %s" % mef.tree_xml(t))
                ctx.count("engine_checked")

    def decide(self, ctx, rng, t, coherent):
        top = t.root
        mifs = rng.sample(list(t.basics), min(8, len(t.basics)))
        want = {}
        try:
            for prime in (0, 1):
                if prime and (coherent or len(t.basics) > 60):
                    continue
                want[prime] = large.reference(ctx.env, t, [(top, rng.choice([2, 3, 4, 5, 6, 8, 12, 20]), prime, 4000, mifs)], maxnodes=600000, timeout=20)[0]
        except large.Overflow:
            ctx.count("beyond_reference")
            return
        f = ctx.write("m.xml", mef.tree_xml(t))
        p, mif, total, limit, n, sets = want[0]
        modes = [("bdd", 0), ("zbdd", 0), ("mocus", 0)] + ([("bdd", 1)] if 1 in want else [])
        rng.shuffle(modes)
        for algo, prime in modes[:2 if rng.random() < .5 else 4]:
            p, mif, total, limit, n, sets = want[prime]
            args = [ALGO[algo], "--limit-order", str(limit), "-o", "out.xml", f]
            # The diagrams of the tool have no budgets: an expensive run is no verdict; MOCUS and ZBDD expand non-coherent trees.
            calc = rng.choice(["none", "rare", "mcub", "exact", "exact"])
            if algo != "bdd" and calc == "exact":
                calc = rng.choice(["rare", "mcub"])
            if prime:
                args.append("--prime-implicants")
                calc = rng.choice(["none", "exact"])
            if calc != "none":
                args += ["--probability"] + {"rare": ["--rare-event"], "mcub": ["--mcub"], "exact": []}[calc]
            imp = calc == "exact" and rng.random() < .6
            if imp:
                args.append("--importance")
            r = ctx.scram(args, timeout=25, slow_ok=True)
            if r.timeout:
                ctx.count("slow_" + algo)
                continue
            rep = load(ctx, r)
            s = rep.sop(top)
            note = "%s%s limit %d of %d events" % (algo, " prime" if prime else "", limit, len(t.basics))
            if compare_products(ctx, algo + ("-prime" if prime else ""), product_set(s), sets, note) and s.nproducts != len(sets):
                ctx.fail("count", "%s: says %d, lists %d products" % (note, s.nproducts, len(sets)))
            ctx.count("compared_" + algo + ("_prime" if prime else ""))
            ctx.count("products", len(sets))
            if total > n:
                ctx.count("cut")
            ctx.count("large" if len(t.basics) > 25 else "medium")
            if len(t.basics) > 16 and len(sets) > 1:
                ctx.sig(len(t.basics), len(t.gates), total, p)
            if calc == "none":
                continue
            w = p
            if calc != "exact":
                qs = [lit_p(q, t.basics) for q in sets]
                if calc == "rare":
                    w = min(1.0, sum(qs))
                else:
                    w = 1.0
                    for q in qs:
                        w *= 1 - q
                    w = 1 - w
            if not oracle.close(s.p, w, abs_=1e-12):
                ctx.fail("total-" + calc, "%s: total %r want %r" % (note, s.p, w))
            ctx.count("totals_" + calc)
            if imp:
                got = {e[0]: e[1] for e in rep.importance[0][2]} if rep.importance else {}
                for v, m in mif.items():
                    if v in got:
                        ctx.count("birnbaum")
                        if not oracle.close(got[v]["MIF"], m, abs_=1e-12):
                            ctx.fail("birnbaum", "%s: MIF of %s %r want %r" % (note, v, got[v]["MIF"], m))
                    elif abs(m) > 1e-9 and total == n and not prime and coherent:
                        ctx.fail("birnbaum-missing", "%s: %s is important by %r, not listed" % (note, v, m))
        ctx.sample(open(f).read())
