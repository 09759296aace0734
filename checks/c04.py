import core, mef, oracle
from ft_common import *


class Check(core.BaseCheck):
    ID = "C04"
    QUICK, THOROUGH = 2400, 60000
    RULE = ("random coherent and non-coherent fault-tree DAGs (2-15 events, probabilities including 0, 1 and tiny ones) run with --bdd --probability; the total compared "
            "with the weighted sum over the truth table; a second rendering (declarations and arguments shuffled, or prime implicants, or a product limit) must give the same total; "
            "non-trivial: total strictly between 0 and 1, distinct by function and probabilities")
    MIN = {"distinct": 400, "totals_compared": 2000}

    def case(self, ctx, rng, idx):
        coherent = rng.random() < 0.4
        t, vars, vals = gen(rng, [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15] if coherent else [2, 3, 4, 5, 6, 7, 8, 9, 10, 11], coherent)
        if rng.random() < 0.3:   # No degenerate values: relative accuracy counts.
            for v in vars:
                t.basics[v] = rng.uniform(0.05, 0.6)
        n = len(vars)
        ps = [t.basics[v] for v in vars]
        f = ctx.write("m.xml", mef.tree_xml(t))
        variants = [["--bdd"]]
        if n <= 8:
            variants.append(["--bdd", "--prime-implicants"])
        variants.append(["--bdd", "--limit-order", str(rng.choice([1, 2, 3]))])
        f2 = None
        u = mef.Tree()
        u.gates = {k: g.copy() for k, g in t.gates.items()}
        for g in u.gates.values():
            if g.op != "imply":
                rng.shuffle(g.args)
        u.basics, u.houses = t.basics, t.houses
        f2 = ctx.write("m2.xml", mef.tree_xml(u, rng=rng))
        runs = [(variants[0], f), (rng.choice(variants), f2)]
        for args, file in runs:
            rep = load(ctx, ctx.scram(args + ["--probability", "-o", "out.xml", file]))
            for top in t.tops():
                e = oracle.probability(vals[top], n, ps)
                s = rep.sop(top)
                ctx.count("totals_compared")
                if s.p is None or not oracle.close(s.p, e, abs_=1e-12):
                    ctx.fail("total:" + "+".join(a.strip("-") for a in args if not a.isdigit()), "%s: reported %r want %r (%s)" % (top, s.p, e, args))
                if 0 < e < 1:
                    ctx.sig(n, vals[top], tuple(ps))
        ctx.sample(open(f).read())
