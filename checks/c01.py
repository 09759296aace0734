import core, mef, oracle
from ft_common import *


class Check(core.BaseCheck):
    ID = "C01"
    COHERENT = True
    QUICK, THOROUGH = 1600, 40000
    RULE = ("random fault-tree DAGs (shared gates, clones, distributive patterns, votes, pass-through chains, house events, constants) analysed by the "
            "real CLI with BDD, ZBDD and MOCUS; every top event's products compared with the minimal true points of its truth table; "
            "non-trivial: a top event with at least two products or a constant one, distinct by truth table over its variables")
    MIN = {"distinct": 100, "tops_compared": 300, "constant_tops": 5}

    def case(self, ctx, rng, idx):
        t, vars, vals = gen(rng, [2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14] if self.COHERENT else [2, 3, 4, 5, 6, 7, 8, 9, 10, 11], self.COHERENT)
        f = ctx.write("m.xml", mef.tree_xml(t, rng=rng if rng.random() < 0.5 else None))
        n = len(vars)
        tops = t.tops()
        for algo in ("bdd", "zbdd", "mocus"):
            r = ctx.scram([ALGO[algo], "--limit-order", "64", "-o", "out.xml", f], timeout=10, slow_ok=not self.COHERENT)
            if r.timeout:
                continue
            rep = load(ctx, r, key=algo)
            if sorted(s.key[0] for s in rep.sops) != sorted(tops):
                ctx.fail(algo + ":tops", "top events analysed %s expected %s" % ([s.key for s in rep.sops], tops), stop=True)
            for top in tops:
                s = rep.sop(top)
                tt = vals[top]
                want = lits_of(oracle.mcs(tt, n), vars)
                got = product_set(s)
                compare_products(ctx, algo, got, want, "%s %s" % (algo, top))
                ctx.count("tops_compared")
                ctx.count("products_compared", len(want))
                unity = tt & 1 == 1   # the empty set of events suffices
                const1, const0 = tt == oracle.full(n), tt == 0
                if const0 or (self.COHERENT and const1):
                    ctx.count("constant_tops")
                    word = "UNITY" if const1 else "NULL"
                    if word not in (s.warning or ""):
                        ctx.fail(algo + ":warning", "%s: constant top without %s warning: %r" % (top, word, s.warning))
                elif not unity and s.warning:
                    ctx.fail(algo + ":warning", "%s: unexpected warning %r" % (top, s.warning))
                if len(want) > 1 or const0 or const1:
                    ctx.sig(n, tt)
        ctx.sample(open(f).read())
