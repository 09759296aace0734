import core, mef, oracle
from ft_common import *


class Check(core.BaseCheck):
    ID = "C20"
    QUICK, THOROUGH = 900, 20000
    RULE = ("random fault trees run with BDD, ZBDD, MOCUS (minimal cut sets) and BDD prime implicants under product limits 0..6; half of the trees are layers of small non-coherent modules on private variables; the products compared with those of the truth table "
            "having at most that many literals; with the exact calculator the total must not move; non-trivial: the limit cuts some products but not all")
    MIN = {"distinct": 40, "cut_tops": 300}

    def case(self, ctx, rng, idx):
        coherent = rng.random() < 0.6
        modular = rng.random() < 0.5
        if modular:  # Modules that may be unity (their minimal cut sets include the empty one).
            coherent = False
            t = mef.gen_modular(rng, maxb=rng.choice([4, 5, 6, 7, 8, 9]))
            vars = list(t.basics)
            vals = oracle.eval_gates(t.gates, t.houses, vars)
        else:
            t, vars, vals = gen(rng, [3, 4, 5, 6, 7, 8, 9, 10, 12] if coherent else [3, 4, 5, 6, 7, 8], coherent)
        n = len(vars)
        f = ctx.write("m.xml", mef.tree_xml(t))
        modes = [("bdd", []), ("zbdd", []), ("mocus", [])] + ([("bdd", ["--prime-implicants"])] if n <= 7 else [])
        full = {}
        for top in t.tops():
            full[top, 0] = lits_of(oracle.mcs(vals[top], n), vars)
            if n <= 7:
                full[top, 1] = {frozenset((neg, vars[i]) for neg, i in q) for q in oracle.primes(vals[top], n)}
        limits = rng.sample(range(0, 4) if modular else range(0, 7), 2)
        for algo, extra in modes:
            prime = 1 if extra else 0
            for k in limits:
                exact = algo == "bdd" and rng.random() < 0.5
                args = [ALGO[algo]] + extra + ["--limit-order", str(k), "-o", "out.xml", f] + (["--probability"] if exact else [])
                r = ctx.scram(args, timeout=10, slow_ok=not coherent)
                if r.timeout:
                    continue
                rep = load(ctx, r)
                for top in t.tops():
                    s = rep.sop(top)
                    want = {q for q in full[top, prime] if len(q) <= k}
                    compare_products(ctx, algo + ("-prime" if prime else ""), product_set(s), want, "%s %s limit %d" % (top, algo, k))
                    if want != full[top, prime]:
                        ctx.count("cut_tops")
                        if want:
                            ctx.sig(n, vals[top], k)
                    if exact:
                        e = oracle.probability(vals[top], n, [t.basics[v] for v in vars])
                        if not oracle.close(s.p, e, abs_=1e-12):
                            ctx.fail("total", "%s limit %d: total %r want %r" % (top, k, s.p, e))
        ctx.sample(open(f).read())
