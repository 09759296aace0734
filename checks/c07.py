import itertools, math
import core, mef, oracle
from ft_common import *


def ccf_levels(model, n, factors, q):
    """Probability of one common-cause event of each level, from the published definitions of the models."""
    if model == "beta-factor":
        return {1: (1 - factors[0]) * q, n: factors[0] * q}
    if model == "phi-factor":
        return {i + 1: f * q for i, f in enumerate(factors)}
    out = {}
    if model == "MGL":
        m = len(factors) + 1
        rho = [1.0] + list(factors) + [0.0]
        for k in range(1, m + 1):
            out[k] = math.prod(rho[:k]) * (1 - rho[k]) / math.comb(n - 1, k - 1) * q
    else:
        at = sum((i + 1) * f for i, f in enumerate(factors))
        for k, f in enumerate(factors, 1):
            out[k] = k / math.comb(n - 1, k - 1) * f / at * q
    return out


class Check(core.BaseCheck):
    ID = "C07"
    QUICK, THOROUGH = 1500, 40000
    RULE = ("random fault trees with one or two CCF groups of 2-4 members (beta-factor, MGL, alpha-factor, phi-factor; complete or truncated factor levels, explicit or implicit level numbers, "
            "shuffled factor order, parameterised distribution); with CCF analysis the products, total probability, importance and CCF event descriptions are compared with the independently "
            "expanded tree, without it with the plain tree; one case in eight has a group of 5-8 members, judged by the joint distribution of the members and the minimal covers; non-trivial: a product containing a common-cause event of level 2 or more")
    MIN = {"distinct": 150, "ccf_products": 1000, "large_groups": 80, "large_curve_points": 20, "large_importance": 100, "large_products": 5000}

    def large_group(self, ctx, rng):
        """One group of five to eight members; its joint distribution over the members' states decides."""
        n = rng.choice([5, 5, 5, 6, 6, 7, 8])
        coherent = rng.random() < .75
        t = mef.gen_tree(rng, nb=n + rng.randint(0, 3), ng=rng.randint(1, 6), coherent=coherent, max_args=rng.choice([3, 4, 8]))
        vars = list(t.basics)
        members = rng.sample(vars, n)
        model = rng.choice(["beta-factor", "MGL", "alpha-factor", "phi-factor"])
        q = rng.choice([rng.uniform(0.01, 0.9), round(10 ** rng.uniform(-4, -1), 8)])
        top_level = {5: 5, 6: 6, 7: 4, 8: 3}[n]
        m = rng.choice([top_level, rng.randint(2, top_level)])
        if model == "beta-factor":
            fl = [(n, rng.random())]
        elif model == "MGL":
            fl = [(k, rng.choice([rng.random(), 0.05, 0.5])) for k in range(2, m + 1)]
        else:
            fs = [rng.random() + .01 for _ in range(m)]
            if model == "phi-factor":
                fs = [x / sum(fs) for x in fs]
            fl = [(k, min(1.0, x)) for k, x in enumerate(fs, 1)]
        law = rng.choice(["float", "exponential", "exponential"])
        T = rng.choice([10.0, 100.0, 8760.0])
        lam = -math.log1p(-q) / T
        qt = (lambda x: q) if law == "float" else (lambda x: -math.expm1(-lam * x))
        dist = '<float value="%s"/>' % mef.num(q) if law == "float" else '<exponential><float value="%s"/><system-mission-time/></exponential>' % mef.num(lam)
        tree = mef.Tree()
        tree.gates, tree.houses, tree.basics = t.gates, t.houses, {b: p for b, p in t.basics.items() if b not in members}
        explicit = rng.random() < .5
        order = rng.sample(fl, len(fl)) if explicit else fl
        f = ctx.write("m.xml", mef.wrap("<define-fault-tree name='ft'>%s</define-fault-tree><define-CCF-group name='grp' model='%s'><members>%s</members><distribution>%s</distribution><factors>%s</factors></define-CCF-group>" % (
            mef.tree_body(tree), model, "".join('<basic-event name="%s"/>' % b for b in members), dist,
            "".join('<factor%s><float value="%s"/></factor>' % (' level="%d"' % l if explicit else "", mef.num(x)) for l, x in order))))

        def states(levels, force=None):
            """P(exactly this set of members fails); force: an event to condition upon, with its state."""
            d = [0.0] * (1 << n)
            d[0] = 1.0
            for k, pr in levels.items():
                for comb in itertools.combinations(range(n), k):
                    p = pr if not force or force[0] != comb else force[1]
                    e = sum(1 << i for i in comb)
                    new = [x * (1 - p) for x in d]
                    for s, x in enumerate(d):
                        if x:
                            new[s | e] += x * p
                    d = new
            return d
        all_vars = members + [v for v in vars if v not in members]
        vals = oracle.eval_gates(t.gates, t.houses, all_vars)
        single = [t.basics[v] for v in all_vars[n:]]
        ws = oracle.weights(single) if single else [1.0]

        def total(val, d):
            r = 0.0
            for i in range(len(ws)):
                for s in range(1 << n):
                    if val >> (i << n | s) & 1:
                        r += d[s] * float(ws[i])
            return r
        curve = law != "float" and rng.random() < .4
        algo = rng.choice(["bdd", "bdd", "bdd", "zbdd"])
        args = [ALGO[algo], "--ccf", "--probability", "--limit-order", "3" if algo == "bdd" else "2", "--mission-time", repr(T), "-o", "out.xml", f]
        if algo == "bdd":
            args = ["--importance"] + args
            if curve:
                args = ["--time-step", repr(T / 2)] + args
        r = ctx.scram(args, timeout=20, slow_ok=True)
        if r.timeout:
            return
        rep = load(ctx, r)
        curves = {key[0]: pts for key, _, pts in rep.curves}
        imps = {k[0]: dict(evs) for k, _, evs in rep.importance}
        levels = ccf_levels(model, n, [x for _, x in fl], qt(T))
        name_of = lambda comb: "[%s]" % " ".join(members[i] for i in comb)
        probs = {name_of(c): pr for k, pr in levels.items() for c in itertools.combinations(range(n), k)}
        probs.update({v: t.basics[v] for v in all_vars[n:]})
        masks = {name_of(c): sum(1 << i for i in c) for k in levels for c in itertools.combinations(range(n), k)}
        masks.update({v: 1 << all_vars.index(v) for v in all_vars[n:]})
        d = states(levels)
        for top in t.tops():
            s = rep.sop(top)
            note = "%s: %s of %d, levels %s" % (top, model, n, fl)
            if algo == "bdd":
                ctx.count("large_groups")
                P = total(vals[top], d)
                if not oracle.close(s.p, P, abs_=1e-9):
                    ctx.fail("large:total", "%s: total %r want %r" % (note, s.p, P))
                if curve:
                    for x, y in curves.get(top, [])[1:]:
                        w = total(vals[top], states(ccf_levels(model, n, [v for _, v in fl], qt(x))))
                        ctx.count("large_curve_points")
                        if not oracle.close(y, w, abs_=1e-9):
                            ctx.fail("large:curve", "%s: p(%r) = %r want %r" % (note, x, y, w))
                    if not curves.get(top):
                        ctx.fail("large:no-curve", note)
                evs = imps.get(top, {})
                for v in rng.sample(sorted(evs), min(3, len(evs))):
                    if v in masks and masks[v] < 1 << n:
                        comb = tuple(i for i in range(n) if masks[v] >> i & 1)
                        mif = total(vals[top], states(levels, (comb, 1.0))) - total(vals[top], states(levels, (comb, 0.0)))
                        ctx.count("large_importance")
                        if not oracle.close(evs[v]["MIF"], mif, abs_=1e-9):
                            ctx.fail("large:mif", "%s: MIF of %s %r want %r" % (note, v, evs[v]["MIF"], mif))
            if coherent:
                # Products up to the order limit: sets of events whose members make the top event fail, minimally.
                limit = 3 if algo == "bdd" else 2
                base = oracle.mcs(vals[top], len(all_vars))
                found = set()

                def cover(need, chosen):
                    if not need:
                        found.add(frozenset(chosen))
                    elif len(chosen) < limit:
                        low = need & -need
                        for v, e in masks.items():
                            if e & low:
                                cover(need & ~e, chosen + [v])
                for b in base:
                    cover(b, [])
                fails = lambda c: any(b & ~c == 0 for b in base)
                union = lambda c: __import__("functools").reduce(lambda a, v: a | masks[v], c, 0)
                want = {frozenset((False, v) for v in c) for c in found if not any(fails(union(c - {v})) for v in c)}
                ctx.count("large_products", len(want))
                compare_products(ctx, "large:" + algo, product_set(s), want, note)
                for x in s.products:
                    e = lit_p(x.lits, probs)
                    if not oracle.close(x.p, e, abs_=1e-300, rel=1e-4 if e < 1e-12 else 2e-5):
                        ctx.fail("large:product-probability", "%s: %s %r want %r" % (note, x.lits, x.p, e))
            ctx.sig(vals[top], model, tuple(fl), algo)
        ctx.sample(open(f).read())

    def case(self, ctx, rng, idx):
        if idx % 8 == 5:
            return self.large_group(ctx, rng)
        while True:
            coherent = rng.random() < 0.8
            t = mef.gen_tree(rng, nb=rng.randint(3, 7), ng=rng.randint(1, 8), coherent=coherent, max_args=4)
            names = list(t.basics)
            rng.shuffle(names)
            groups, pos = [], 0
            for gi in range(rng.choice([1, 1, 2])):
                n = rng.choice([2, 2, 3, 3, 3, 4])
                if pos + n > len(names):
                    break
                groups.append((names[pos:pos + n], rng.choice(["beta-factor", "MGL", "alpha-factor", "phi-factor"])))
                pos += n
            if not groups:
                continue
            specs = []
            for members, model in groups:
                n = len(members)
                q = rng.choice([rng.uniform(0.01, 0.9), round(10 ** rng.uniform(-6, -1), 8), 1.0])
                if model == "beta-factor":
                    levels, fs = [n], [rng.choice([rng.random(), 0.1, 1.0, 0.0])]
                elif model == "MGL":
                    m = rng.randint(2, n)
                    levels, fs = list(range(2, m + 1)), [rng.choice([rng.random(), 0.05]) for _ in range(m - 1)]
                else:
                    m = 1 if rng.random() < .08 else rng.randint(2, n)
                    levels, fs = list(range(1, m + 1)), [rng.random() + 0.01 for _ in range(m)]
                    if model == "phi-factor":
                        s = sum(fs)
                        fs = [x / s for x in fs]
                    else:
                        fs = [min(1.0, x) for x in fs]
                specs.append((members, model, q, levels, fs))
            ccf = []   # (name, probability, members, group index, size)
            for gi, (members, model, q, levels, fs) in enumerate(specs):
                for k, pr in sorted(ccf_levels(model, len(members), fs, q).items()):
                    for comb in itertools.combinations(members, k):
                        ccf.append((comb, pr, gi, len(members)))
            single = [b for b in t.basics if not any(b in g[0] for g in groups)]
            if len(ccf) + len(single) <= 17:
                break
        # Document
        tree = mef.Tree()
        tree.gates, tree.houses = t.gates, t.houses
        plain_p = {}
        grouped = {b for g in groups for b in g[0]}
        for b, p in t.basics.items():
            if b not in grouped:
                tree.basics[b] = p
                plain_p[b] = p
        items = ["<define-fault-tree name='ft'>%s</define-fault-tree>" % mef.tree_body(tree)]
        params = []
        for gi, (members, model, q, levels, fs) in enumerate(specs):
            for b in members:
                plain_p[b] = q
            dist = '<float value="%s"/>' % mef.num(q)
            if rng.random() < 0.3:
                params.append('<define-parameter name="Q%d">%s</define-parameter>' % (gi, dist))
                dist = '<parameter name="Q%d"/>' % gi
            fl = list(zip(levels, fs))
            explicit = rng.random() < 0.6
            if explicit and rng.random() < 0.5:
                rng.shuffle(fl)
            body = "".join('<factor%s><float value="%s"/></factor>' % (' level="%d"' % l if explicit else "", mef.num(x)) for l, x in fl)
            if len(fl) > 1 or rng.random() < 0.5:
                body = "<factors>%s</factors>" % body
            items.append('<define-CCF-group name="grp%d" model="%s"><members>%s</members><distribution>%s</distribution>%s</define-CCF-group>' % (
                gi, model, "".join('<basic-event name="%s"/>' % b for b in members), dist, body))
        if params:
            items.append("<model-data>%s</model-data>" % "".join(params))
        f = ctx.write("m.xml", mef.wrap("\n".join(items)))
        vars = ["[%s]" % " ".join(c[0]) for c in ccf] + single
        n = len(vars)
        subst = {b: 0 for b in grouped}
        for i, c in enumerate(ccf):
            for b in c[0]:
                subst[b] |= oracle.var_mask(i, n)
        vals = oracle.eval_gates(t.gates, t.houses, vars, subst=subst)
        p = dict(zip(vars, [c[1] for c in ccf] + [t.basics[b] for b in single]))
        pv = [p[v] for v in vars]
        info = {"[%s]" % " ".join(c[0]): ("grp%d" % c[2], len(c[0]), c[3]) for c in ccf}
        tops = t.tops()
        algo = rng.choice(["bdd", "bdd", "zbdd", "mocus"])
        eff = "exact" if algo == "bdd" else "rare-event"
        r = ctx.scram([ALGO[algo], "--ccf", "--importance", "--limit-order", "64", "-o", "out.xml", f], timeout=10, slow_ok=not coherent)
        if r.timeout:
            return
        rep = load(ctx, r)
        imps = {k[0]: evs for k, _, evs in rep.importance}
        for top in tops:
            s = rep.sop(top)
            want = lits_of(oracle.mcs(vals[top], n), vars)
            compare_products(ctx, "ccf:" + algo, product_set(s), want, "%s %s" % (top, [x[1] for x in specs]))
            ctx.count("ccf_products", len(want))
            P = oracle.probability(vals[top], n, pv) if eff == "exact" else min(1.0, sum(lit_p(q, p) for q in want))
            if not oracle.close(s.p, P, abs_=1e-12):
                ctx.fail("total:" + eff, "%s: total %r want %r (%s)" % (top, s.p, P, specs))
            for q in s.products:
                e = lit_p(q.lits, p)
                if not oracle.close(q.p, e, abs_=1e-300, rel=1e-4 if e < 1e-12 else 2e-5):
                    ctx.fail("product-probability", "%s %s: %r want %r (%s)" % (top, q.lits, q.p, e, specs))
            for el in s.el.iter("ccf-event"):
                name = "[" + " ".join(m.get("name") for m in el) + "]"
                got = (el.get("ccf-group"), int(el.get("order")), int(el.get("group-size")))
                if info.get(name) != got:
                    ctx.fail("ccf-event", "%s described as %s, declared %s" % (name, got, info.get(name)))
            for v, got in imps[top]:
                if not oracle.close(got["probability"], p[v], abs_=1e-15):
                    ctx.fail("importance-probability", "%s: %r want %r" % (v, got["probability"], p[v]))
                if eff == "exact":
                    hi, lo = oracle.cofactors(vals[top], vars.index(v), n)
                    mif = oracle.probability(hi, n, pv) - oracle.probability(lo, n, pv)
                    if not oracle.close(got["MIF"], mif, abs_=1e-12):
                        ctx.fail("importance-mif", "%s %s: MIF %r want %r" % (top, v, got["MIF"], mif))
            if any(v[0] == "[" and " " in v for q in want for _, v in q):
                ctx.sig(vals[top], tuple(pv))
            for _, model, *_ in specs:
                ctx.count("model_" + model)
        # The same document without CCF analysis.
        if rng.random() < 0.5:
            bs = list(plain_p)
            vals0 = oracle.eval_gates(t.gates, t.houses, bs)
            rep = load(ctx, ctx.scram(["--bdd", "--probability", "--limit-order", "64", "-o", "off.xml", f]), path="off.xml")
            for top in tops:
                s = rep.sop(top)
                compare_products(ctx, "off", product_set(s), lits_of(oracle.mcs(vals0[top], len(bs)), bs), top)
                e = oracle.probability(vals0[top], len(bs), [plain_p[b] for b in bs])
                ctx.count("without_ccf")
                if not oracle.close(s.p, e, abs_=1e-12):
                    ctx.fail("off-total", "%s: %r want %r" % (top, s.p, e))
        ctx.sample(open(f).read())
