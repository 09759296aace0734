import core, mef, oracle
from ft_common import *


class Sub:
    def __init__(self, name, hyp, source, target, type_=None):
        self.name, self.hyp, self.source, self.target, self.type = name, hyp, source, target, type_

    def xml(self):
        return "<define-substitution name='%s'%s><hypothesis>%s</hypothesis>%s<target>%s</target></define-substitution>" % (
            self.name, " type='%s'" % self.type if self.type else "", mef.formula_xml(self.hyp),
            "<source>%s</source>" % "".join("<basic-event name='%s'/>" % s for s in self.source) if self.source else "",
            "<basic-event name='%s'/>" % self.target if isinstance(self.target, str) else "<constant value='%s'/>" % ("true" if self.target else "false"))

    def deduced(self):
        n = len(self.hyp.args)
        names = [a[2] for a in self.hyp.args]
        op = self.hyp.op
        if not self.source:
            if self.target is False:
                return "delete-terms" if op == "atleast" and self.hyp.k == 2 or op == "and" and n == 2 else None
            return "recovery-rule" if op == "and" else None
        if not isinstance(self.target, str) or op not in ("and", "null"):
            return None
        if len(self.source) == n:
            return "recovery-rule" if all(s in names for s in self.source) else None
        if len(self.source) == 1 and self.source[0] in names:
            return "exchange-event"
        return None


TYPES = ["delete-terms", "recovery-rule", "exchange-event"]


def hyp(rng, pool, ops):
    op = rng.choice(ops)
    n = 1 if op == "null" else rng.choice([2, 2, 3]) if op != "atleast" else rng.choice([3, 4])
    if n > len(pool):
        op, n = "null", 1
    names = rng.sample(pool, n)
    return mef.Gate(op, [(False, "b", x) for x in names], k=rng.randint(2, n - 1) if op == "atleast" else None)


def conflict(subs):
    """The documented restrictions on the non-declarative ones."""
    nd = [s for s in subs if s.source]
    for a in nd:
        for b in nd:
            if isinstance(a.target, str) and a.target in b.source:
                return True
            if a is b:
                continue
            h = [x[2] for x in b.hyp.args]
            if isinstance(a.target, str) and a.target in h or any(s in h for s in a.source):
                return True
    return False


class Check(core.BaseCheck):
    ID = "C19"
    QUICK, THOROUGH = 1800, 50000
    RULE = ("random fault trees with 1-4 substitutions over events in and outside of the tree: declarative (and/or/vote/single hypothesis, event or false target) compared as f & (~hypothesis | target) - exact probability, "
            "minimal cut sets, prime implicants, CCF groups; non-declarative ones compared as replacement in every reference cut set followed by minimisation, with rare-event or MCUB totals; every type declaration, "
            "documented conflict and malformation must be rejected; non-trivial: a substitution set that changes the products, distinct by function and substitutions")
    MIN = {"distinct": 500, "declarative": 500, "non_declarative": 300, "changed": 500, "rejected": 200, "typed": 100}
    ASSUMPTIONS = ["the product limit is above every order (truncation before replacement is documented as unreliable)"]

    def case(self, ctx, rng, idx):
        nd = rng.random() < 0.45
        ccf = not nd and rng.random() < 0.15
        coherent = nd or rng.random() < 0.7
        t, vars, vals = gen(rng, [3, 4, 5, 6, 7, 8] if coherent else [3, 4, 5, 6], coherent)
        if rng.random() < 0.5:
            for v in vars:
                t.basics[v] = rng.uniform(0.05, 0.6)
        extra = ["x%d" % i for i in range(rng.choice([0, 1, 2]))]
        for x in extra:
            t.basics[x] = rng.uniform(0.01, 0.9)
        pool = vars + extra
        for _ in range(300):
            subs = []
            for i in range(rng.choice([1, 1, 2, 3, 4])):
                if nd and rng.random() < 0.85:
                    h = hyp(rng, pool, ["and", "and", "null", "or"])
                    src = rng.sample(pool, rng.choice([1, 1, 2, min(3, len(pool))]))
                    if rng.random() < 0.6:
                        src = rng.sample([a[2] for a in h.args], rng.randint(1, len(h.args)))
                    tgt = rng.choice([x for x in pool] + [True])
                    s = Sub("S%d" % i, h, src, tgt)
                else:
                    h = hyp(rng, pool, ["and", "and", "or", "atleast", "null"])
                    s = Sub("S%d" % i, h, [], rng.choice(pool + [False] * 3))
                if rng.random() < 0.3 and s.deduced():
                    s.type = s.deduced()
                    ctx.count("typed")
                subs.append(s)
            if not conflict(subs):
                break
        else:
            return
        members = []
        if ccf:
            members = rng.sample(vars, 2)
            beta = rng.uniform(0.1, 0.5)
            q = 0.2
            t.ccf.append("<define-CCF-group name='G' model='beta-factor'><members>%s</members><distribution><float value='%r'/></distribution><factor level='2'><float value='%r'/></factor></define-CCF-group>" % (
                "".join("<basic-event name='%s'/>" % m for m in members), q, beta))
            for m in members:   # The group defines its members.
                del t.basics[m]
            ctx.count("ccf")
        any_nd = any(s.source for s in subs)
        # ---- malformed variants
        if rng.random() < 0.35:
            self.malformed(ctx, rng, t, pool, subs)
        body = "".join(s.xml() for s in subs)
        f = ctx.write("m.xml", mef.tree_xml(t).replace("</opsa-mef>", body + "</opsa-mef>") if rng.random() < 0.5 else mef.tree_xml(t).replace("<opsa-mef>", "<opsa-mef>" + body))
        ctx.sample(open(f).read())
        algo = rng.choice(["bdd", "bdd", "zbdd", "mocus"])
        args = [ALGO[algo], "--probability", "--limit-order", "64"]
        approx = rng.choice(["rare-event", "mcub"]) if any_nd or algo != "bdd" or rng.random() < 0.2 else None
        prime = False
        if approx:
            args.append("--" + approx)
        elif rng.random() < 0.35:
            prime = True
            args.append("--prime-implicants")
        if ccf:
            args.append("--ccf")
        if any_nd and rng.random() < 0.1:   # They do not apply to exact analyses.
            r = ctx.scram(["--bdd", "--probability", "-o", "no.xml", f])
            self.rejected(ctx, r, "exact analysis with a non-declarative substitution", "no.xml")
        r = ctx.scram(args + ["-o", "out.xml", f], timeout=10, slow_ok=True)
        if r.timeout:
            return
        rep = load(ctx, r)
        # ---- reference
        allv = list(t.basics)
        if ccf:
            a, b = members
            common = "[%s %s]" % (a, b)
            single = {a: "[%s]" % a, b: "[%s]" % b}
            allv += [single[a], single[b], common]
            p = dict(t.basics)
            p.update({single[a]: (1 - beta) * q, single[b]: (1 - beta) * q, common: beta * q})
        else:
            p = dict(t.basics)
        n = len(allv)
        tab = {v: oracle.var_mask(i, n) for i, v in enumerate(allv)}
        subst = {}
        if ccf:
            for m in members:
                subst[m] = tab[single[m]] | tab[common]
            tab.update(subst)
        V = oracle.eval_gates(t.gates, t.houses, allv, subst=subst)
        F = oracle.full(n)
        con = F
        for s in subs:
            if not s.source:
                ctx.count("declarative")
                h = oracle.combine(s.hyp.op, [tab[x[2]] for x in s.hyp.args], n, s.hyp.k)
                con &= (F ^ h) | (tab[s.target] if isinstance(s.target, str) else 0)
            else:
                ctx.count("non_declarative")
        ps = [p[v] for v in allv]
        for top in t.tops():
            tt = V[top] & con
            sop = rep.sop(top)
            note = "%s %s" % (top, " ".join(args))
            if prime:
                want = {frozenset((neg, allv[i]) for neg, i in s_) for s_ in oracle.primes(tt, n)}
            else:
                want = lits_of(oracle.mcs(tt, n), allv)
            plain = lits_of(oracle.mcs(V[top], n), allv)
            if any_nd:
                want = self.replace(want, subs)
            compare_products(ctx, "nd" if any_nd else "prime" if prime else "declarative", product_set(sop), want, note)
            if want != plain:
                ctx.count("changed")
                ctx.sig(n, tt, tuple(s.xml() for s in subs))
            if approx is None:
                e = oracle.probability(tt, n, ps)
            else:
                xs = [lit_p(w, p) for w in want]
                e = min(1.0, sum(xs))
                if approx == "mcub":
                    e = 1.0
                    for x in xs:
                        e *= 1 - x
                    e = 1 - e
            if not oracle.close(sop.p, e, abs_=1e-12):
                ctx.fail("total:" + (approx or "exact"), "%s: %r want %r" % (note, sop.p, e))

    def replace(self, products, subs):
        out = set()
        for c in products:
            names = {v for _, v in c}
            rem, add = set(), set()
            for s in subs:
                if not s.source:
                    continue
                hs = [x[2] for x in s.hyp.args]
                if all(h in names for h in hs) if s.hyp.op != "or" else any(h in names for h in hs):
                    rem |= set(s.source)
                    if isinstance(s.target, str):
                        add.add(s.target)
            out.add(frozenset((names - rem) | add))
        return {frozenset((False, v) for v in c) for c in out if not any(d < c for d in out)}

    def rejected(self, ctx, r, what, name):
        import os
        ctx.count("rejected")
        if r.code != 1 or os.path.exists(ctx.path(name)) or not r.err.strip():
            ctx.fail("accepted:" + what, "%s: exit %d, report written: %r, diagnostic %r" % (what, r.code, os.path.exists(ctx.path(name)), r.err[:200]))

    def malformed(self, ctx, rng, t, pool, subs):
        ev = lambda k: rng.sample(pool, min(k, len(pool)))
        A = lambda op, names, k=None: mef.Gate(op, [(False, "b", x) for x in names], k=k)
        a, b, c = ev(3)
        kinds = []
        kinds.append(("wrong type", lambda: Sub("Z", A("and", [a, b]), [], False, rng.choice(["recovery-rule", "exchange-event"]))))
        kinds.append(("wrong type", lambda: Sub("Z", A("and", [a, b]), [], c, rng.choice(["delete-terms", "exchange-event"]))))
        kinds.append(("wrong type", lambda: Sub("Z", A("or", [a, b]), [], c, rng.choice(TYPES))))
        kinds.append(("wrong type", lambda: Sub("Z", A("and", [a, b]), [a], c, rng.choice(["delete-terms", "recovery-rule"]))))
        kinds.append(("wrong type", lambda: Sub("Z", A("and", [a, b]), [a, b], c, rng.choice(["delete-terms", "exchange-event"]))))
        kinds.append(("no effect", lambda: Sub("Z", A("and", [a, b]), [], True)))
        kinds.append(("source with false target", lambda: Sub("Z", A("and", [a, b]), [a], False)))
        kinds.append(("non-coherent hypothesis", lambda: Sub("Z", A(rng.choice(["nand", "nor", "xor", "iff", "imply"]), [a, b]), [], c)))
        kinds.append(("complement in hypothesis", lambda: Sub("Z", mef.Gate("and", [(True, "b", a), (False, "b", b)]), [], c)))
        kinds.append(("vote hypothesis with source", lambda: Sub("Z", A("atleast", [a, b, c], 2), [a], True)))
        kinds.append(("source equal to target", lambda: Sub("Z", A("and", [a, b]), [a], a)))
        kinds.append(("duplicate hypothesis event", lambda: Sub("Z", A("and", [a, b, a]), [], c)))
        kinds.append(("duplicate source event", lambda: Sub("Z", A("and", [a, b]), [a, a], c)))
        kinds.append(("undefined event", lambda: Sub("Z", A("and", [a, "nosuch"]), [], c)))
        kinds.append(("undefined source", lambda: Sub("Z", A("and", [a, b]), ["nosuch"], c)))
        kinds.append(("undefined target", lambda: Sub("Z", A("and", [a, b]), [], "nosuch")))
        kinds.append(("gate in hypothesis", lambda: Sub("Z", mef.Gate("and", [(False, "b", a), (False, "g", next(iter(t.gates)))]), [], c)))
        if t.houses:
            kinds.append(("house event in hypothesis", lambda: Sub("Z", mef.Gate("and", [(False, "b", a), (False, "h", next(iter(t.houses)))]), [], c)))
        kinds.append(("duplicate name", lambda: Sub(subs[0].name, A("and", [a, b]), [], c)))
        pairs = []
        if len(pool) >= 4:
            d = next(x for x in pool if x not in (a, b, c))
            pairs.append(("target is another source", [Sub("Y", A("and", [a, b]), [a], c), Sub("Z", A("null", [b]), [c], True)]))
            pairs.append(("target in another hypothesis", [Sub("Y", A("null", [a]), [a], c), Sub("Z", A("and", [b, c]), [d], True)]))
            pairs.append(("source in another hypothesis", [Sub("Y", A("null", [b]), [a], True), Sub("Z", A("and", [a, c]), [d], True)]))
        if rng.random() < 0.3 and pairs:
            what, bad = rng.choice(pairs)
            if rng.random() < 0.5:
                bad.reverse()
            bodies = "".join(s.xml() for s in bad)
        else:
            what, mk = rng.choice(kinds)
            bodies = "".join(s.xml() for s in ([mk()] + [x for x in subs if what == "duplicate name" or not x.source]))
        f = ctx.write("bad.xml", mef.tree_xml(t).replace("</opsa-mef>", bodies + "</opsa-mef>"))
        r = ctx.scram(["--bdd", "--rare-event", "-o", "bad.out", f])
        self.rejected(ctx, r, what, "bad.out")
