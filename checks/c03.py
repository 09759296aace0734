import core, mef, oracle
from ft_common import *


class Check(core.BaseCheck):
    ID = "C03"
    QUICK, THOROUGH = 2400, 60000
    RULE = ("random coherent and non-coherent fault trees of up to 8 events run with --bdd --prime-implicants --probability; the products compared with all "
            "prime implicants of the truth table (quantifier expansion), each product's probability with its literals'; non-trivial: at least two primes and a complemented literal")
    MIN = {"distinct": 200, "tops_compared": 800, "complemented_literals": 500}

    def case(self, ctx, rng, idx):
        t, vars, vals = gen(rng, [2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8], rng.random() < 0.1)
        p = {v: x for v, x in t.basics.items()}
        f = ctx.write("m.xml", mef.tree_xml(t))
        r = ctx.scram(["--bdd", "--prime-implicants", "--probability", "--limit-order", "64", "-o", "out.xml", f])
        rep = load(ctx, r)
        n = len(vars)
        ps = [p[v] for v in vars]
        for top in t.tops():
            s = rep.sop(top)
            tt = vals[top]
            want = {frozenset((neg, vars[i]) for neg, i in s_) for s_ in oracle.primes(tt, n)}
            compare_products(ctx, "primes", product_set(s), want, top)
            ctx.count("tops_compared")
            ctx.count("primes_compared", len(want))
            negs = sum(neg for w in want for neg, _ in w)
            ctx.count("complemented_literals", negs)
            for q in s.products:
                e = lit_p(q.lits, p)
                if not oracle.close(q.p, e, abs_=1e-15):
                    ctx.fail("product-probability", "%s %s: %r want %r" % (top, q.lits, q.p, e))
            e = oracle.probability(tt, n, ps)
            if not oracle.close(s.p, e, abs_=1e-12):
                ctx.fail("total", "%s: %r want %r" % (top, s.p, e))
            if len(want) > 1 and negs:
                ctx.sig(n, tt)
        ctx.sample(open(f).read())
