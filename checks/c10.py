import core, mef, oracle
from ft_common import *
from xml.sax.saxutils import quoteattr as q


class Model:
    """Event trees over one fault tree, with their reference interpreter."""

    def __init__(self, rng, formulas):
        self.rng, self.formulas = rng, formulas
        self.rules, self.trees, self.seqs = {}, [], {}
        self.params = {}
        self.tfe_in_collect = False

    # ------------------------------------------------------------ generation
    def build(self, t):
        rng = self.rng
        self.t = t
        self.houses = dict(t.houses)
        self.states = ["S", "F", "half", "off"]
        nt = rng.choice([1, 1, 2, 3, 4])
        self.fes = {}
        for i in range(nt):   # Same functional event names in different trees half of the time.
            pre = "" if rng.random() < 0.5 else "t%d_" % i
            self.fes[i] = [pre + "fe%d" % k for k in range(rng.choice([1, 2, 2, 3, 4]))]
        self.all_fes = sorted({f for l in self.fes.values() for f in l})
        self.ies = [("I%d" % k, rng.randrange(nt) if k else 0) for k in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < 0.15:
            self.ies.append(("Iloose", None))
        for i in range(rng.choice([0, 1, 2, 3])):
            self.rules["r%d" % i] = None
        names = list(self.rules)
        for i in reversed(range(len(names))):
            self.rules[names[i]] = [self.instr(2, names[i + 1:]) for _ in range(rng.randint(1, 2))]
        for i in range(nt):
            for k in range(rng.choice([1, 2, 3, 4])):
                self.seqs["s%d_%d" % (i, k)] = (i, None)
        for s, (i, _) in list(self.seqs.items()):
            ins = [self.instr(2, names) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
            if i + 1 < nt and rng.random() < 0.4:
                link = ("link", rng.randrange(i + 1, nt))
                if rng.random() < 0.4:
                    link = ("if", self.cond(1), link, self.instr(1, names) if rng.random() < 0.3 else None)
                if rng.random() < 0.15:
                    link = ("block", [link, self.instr(1, names)])
                ins.insert(rng.randint(0, len(ins)), link)
                if rng.random() < 0.15:
                    ins.append(("link", rng.randrange(i + 1, nt)))
            self.seqs[s] = (i, ins)
        self.budget = 0
        for i in range(nt):
            br = {}
            for k in reversed(range(rng.choice([0, 0, 1, 2]))):
                start = rng.randint(0, len(self.fes[i]))
                br["br%d" % k] = (start, self.branch(i, start, br, names, 0))
            self.trees.append((br, self.branch(i, 0, br, names, 0)))

    def linked_from(self, i, j):
        """Sequences of tree j may be used in tree i without making link cycles."""
        return j >= i

    def branch(self, i, lo, br, rules, depth):
        rng = self.rng
        ins = [self.instr(2, rules) for _ in range(rng.choice([0, 0, 1, 1, 2]))]
        if depth and self.formulas and rng.random() < 0.6 or depth and not self.formulas and rng.random() < 0.9:
            ins.insert(rng.randint(0, len(ins)), self.collect())
        fes = self.fes[i]
        r = rng.random()
        ok = [b for b, (s, _) in br.items() if s >= lo]
        if lo < len(fes) and (r < 0.75 or depth == 0):
            k = rng.randrange(lo, len(fes)) if rng.random() < 0.4 else lo
            st = rng.sample(self.states, rng.choice([1, 2, 2, 2, 3]))
            return ins, ("fork", fes[k], [(s, self.branch(i, k + 1, br, rules, depth + 1)) for s in st])
        if ok and r < 0.6 + 0.2:
            return ins, ("branch", rng.choice(ok))
        own = [s for s, (j, _) in self.seqs.items() if j == i or (j > i and rng.random() < 0.3)]
        return ins, ("sequence", rng.choice(own))

    def cond(self, depth):
        rng = self.rng
        r = rng.random()
        if depth and r < 0.35:
            op = rng.choice(["and", "or", "not", "eq", "df", "ite"])
            n = {"not": 1, "ite": 3}.get(op, 2)
            return (op, [self.cond(depth - 1) for _ in range(n)])
        if r < 0.75:
            return ("fe", rng.choice(self.all_fes + ["nosuch"]) if rng.random() < 0.1 else rng.choice(self.all_fes), rng.choice(self.states))
        if r < 0.9:
            return ("ie", rng.choice(self.ies)[0])
        if r < 0.95:
            return ("const", rng.random() < 0.5)
        p = "par%d" % len(self.params)
        self.params[p] = rng.choice([0.0, 1.0, 2.5, -1.0])
        return ("par", p)

    def collect(self):
        rng = self.rng
        if not self.formulas:
            v = rng.choice([0.5, 0.1, 0.25, 0.9, 1.0, rng.random()])
            if rng.random() < 0.2:
                p = "par%d" % len(self.params)
                self.params[p] = v
                return ("expr", '<parameter name="%s"/>' % p, v)
            if rng.random() < 0.15:
                w = rng.random()
                return ("expr", '<mul><float value="%r"/><float value="%r"/></mul>' % (v, w), v * w)
            return ("expr", '<float value="%r"/>' % v, v)
        t = self.t
        pool = [(False, "g", g) for g in t.gates] * 3 + [(False, "b", b) for b in t.basics] + [(False, "h", h) for h in self.houses] * 2
        op = rng.choice(["null"] * 4 + ["and", "or", "not", "atleast", "xor", "nand", "nor", "iff", "imply"] * (0 if self.coherent else 1) + ["and", "or", "atleast"])
        want = {"null": 1, "not": 1, "xor": 2, "iff": 2, "imply": 2, "atleast": 3}.get(op, rng.randint(2, 3))
        args = []
        for _ in range(30):
            if len(args) == want:
                break
            a = rng.choice(pool)
            if rng.random() < 0.05:
                a = (False, "c", rng.random() < 0.5)
            if any(x[2] == a[2] for x in args) or a[1] == "c" and any(x[1] == "c" for x in args):
                continue
            if not self.coherent and op not in ("not", "null") and a[1] != "c" and rng.random() < 0.15:
                a = (True, a[1], a[2])
            args.append(a)
        if len(args) < want:
            op, args = "null", args[:1]
        if op == "not" and args[0][1] == "c":
            op = "null"
        g = mef.Gate(op, args, k=2 if op == "atleast" else None)
        return ("formula", g)

    def instr(self, depth, rules):
        rng = self.rng
        r = rng.random()
        if depth and r < 0.3:
            return ("if", self.cond(2), self.instr(depth - 1, rules), self.instr(depth - 1, rules) if rng.random() < 0.5 else None)
        if depth and r < 0.4:
            return ("block", [self.instr(depth - 1, rules) for _ in range(rng.randint(0, 3))])
        if rules and r < 0.55:
            return ("rule", rng.choice(rules))
        if self.houses and r < 0.8:
            return ("set", rng.choice(list(self.houses)), rng.random() < 0.5)
        return self.collect()

    # ------------------------------------------------------------ XML
    def cx(self, c):
        k = c[0]
        if k == "fe":
            return "<test-functional-event name=%s state=%s/>" % (q(c[1]), q(c[2]))
        if k == "ie":
            return "<test-initiating-event name=%s/>" % q(c[1])
        if k == "const":
            return '<bool value="%s"/>' % ("true" if c[1] else "false")
        if k == "par":
            return "<parameter name=%s/>" % q(c[1])
        return "<%s>%s</%s>" % (k, "".join(self.cx(x) for x in c[1]), k)

    def ix(self, i):
        k = i[0]
        if k == "if":
            return "<if>%s%s%s</if>" % (self.cx(i[1]), self.ix(i[2]), self.ix(i[3]) if i[3] else "")
        if k == "block":
            return "<block>%s</block>" % "".join(map(self.ix, i[1]))
        if k == "rule":
            return "<rule name=%s/>" % q(i[1])
        if k == "set":
            return '<set-house-event name=%s%s><constant value="%s"/></set-house-event>' % (q(i[1]), ' direction="forward"' if len(i[1]) % 2 else "", "true" if i[2] else "false")
        if k == "formula":
            return "<collect-formula>%s</collect-formula>" % mef.formula_xml(i[1])
        if k == "expr":
            return "<collect-expression>%s</collect-expression>" % i[1]
        return "<event-tree name=%s/>" % q("T%d" % i[1])

    def bx(self, b):
        ins, tgt = b
        s = "".join(map(self.ix, ins))
        if tgt[0] == "fork":
            return s + "<fork functional-event=%s>%s</fork>" % (q(tgt[1]), "".join("\n<path state=%s>%s</path>" % (q(st), self.bx(x)) for st, x in tgt[2]))
        return s + "<%s name=%s/>" % (tgt[0], q(tgt[1]))

    def xml(self):
        parts = []
        for n, i in self.ies:
            parts.append("<define-initiating-event name=%s%s/>" % (q(n), "" if i is None else " event-tree=%s" % q("T%d" % i)))
        for n, ins in self.rules.items():
            parts.append("<define-rule name=%s>%s</define-rule>" % (q(n), "".join(map(self.ix, ins))))
        for i, (br, init) in enumerate(self.trees):
            sq = [s for s, (j, _) in self.seqs.items() if j == i]
            brs = list(br.items())
            self.rng.shuffle(brs)
            parts.append("<define-event-tree name=%s>\n%s\n%s\n%s\n<initial-state>%s</initial-state></define-event-tree>" % (
                q("T%d" % i), "".join("<define-functional-event name=%s/>" % q(f) for f in self.fes[i]),
                "\n".join("<define-sequence name=%s>%s</define-sequence>" % (q(s), "".join(map(self.ix, self.seqs[s][1]))) for s in sq),
                "\n".join("<define-branch name=%s>%s</define-branch>" % (q(b), self.bx(x)) for b, (_, x) in brs), self.bx(init)))
        ft = "<define-fault-tree name=%s>\n%s\n</define-fault-tree>" % (q(self.t.name), mef.tree_body(self.t))
        parts.append(ft)
        parts.append("<model-data>%s</model-data>" % "".join('<define-parameter name="%s"><float value="%r"/></define-parameter>' % kv for kv in self.params.items()))
        self.rng.shuffle(parts)
        return mef.wrap("\n".join(parts))

    # ------------------------------------------------------------ reference
    def cv(self, c):
        k = c[0]
        if k == "fe":
            return float(self.ctx.get(c[1]) == c[2])
        if k == "ie":
            return float(self.ie == c[1])
        if k == "const":
            return float(c[1])
        if k == "par":
            return self.params[c[1]]
        a = [self.cv(x) for x in c[1]]
        if k == "and":
            return float(all(a))
        if k == "or":
            return float(any(a))
        if k == "not":
            return float(not a[0])
        if k == "eq":
            return float(a[0] == a[1])
        if k == "df":
            return float(a[0] != a[1])
        return a[1] if a[0] else a[2]

    def do(self, ins, st):
        """st: [collected, settings]; returns whether a link was followed."""
        linked = False
        for i in ins:
            k = i[0]
            if k == "if":
                self.stats["if_taken" if self.cv(i[1]) else "if_else"] += 1
                br = i[2] if self.cv(i[1]) else i[3]
                if br:
                    linked |= self.do([br], st)
            elif k == "block":
                linked |= self.do(i[1], st)
            elif k == "rule":
                self.stats["rules"] += 1
                linked |= self.do(self.rules[i[1]], st)
            elif k == "set":
                st[1][i[1]] = i[2]
                self.stats["house_sets"] += 1
            elif k == "formula":
                st[0].append(self.mask(i[1], st[1]))
            elif k == "expr":
                st[0].append(i[2])
            else:
                linked = True
                self.stats["links"] += 1
                saved, self.ctx = self.ctx, {}
                self.walk(self.trees[i[1]][1], [list(st[0]), dict(st[1])], self.trees[i[1]][0])
                self.ctx = saved
        return linked

    def mask(self, g, settings):
        key = tuple(sorted(settings.items()))
        if key not in self.cache:
            h = dict(self.houses)
            h.update(settings)
            self.cache[key] = (oracle.eval_gates(self.t.gates, h, self.vars), h)
        vals, h = self.cache[key]
        n = len(self.vars)
        a = []
        for neg, k, name in g.args:
            v = vals[name] if k == "g" else oracle.var_mask(self.vars.index(name), n) if k == "b" else (oracle.full(n) if (h[name] if k == "h" else name) else 0)
            a.append(oracle.full(n) ^ v if neg else v)
        return oracle.combine(g.op, a, n, g.k, g.k2)

    def walk(self, b, st, branches):
        self.paths += 1
        if self.paths > 4000:
            raise TooBig()
        ins, tgt = b
        self.do(ins, st)
        if tgt[0] == "fork":
            for s, x in tgt[2]:
                self.ctx[tgt[1]] = s
                self.walk(x, [list(st[0]), dict(st[1])], branches)
            del self.ctx[tgt[1]]
        elif tgt[0] == "branch":
            self.stats["named_branches"] += 1
            self.walk(branches[tgt[1]][1], st, branches)
        elif not self.do(self.seqs[tgt[1]][1], st):
            self.result.setdefault(tgt[1], []).append(list(st[0]))

    def sequences(self, ie, tree, vars, houses=None):
        self.vars, self.ie, self.ctx, self.result, self.cache, self.paths = vars, ie, {}, {}, {}, 0
        if houses is not None:
            self.houses = houses
        self.walk(self.trees[tree][1], [[], {}], self.trees[tree][0])
        out = {}
        n = len(vars)
        for s, paths in self.result.items():
            if self.formulas:
                m = 0
                for p in paths:
                    x = oracle.full(n)
                    for f in p:
                        x &= f
                    m |= x
                out[s] = (m, len(paths), sum(not p for p in paths))
            else:
                tot = 0.0
                for p in paths:
                    x = 1.0
                    for f in p:
                        x *= f
                    tot += x
                out[s] = (tot, len(paths), sum(not p for p in paths))
        return out


class TooBig(Exception):
    pass


def tfe_case(ctx, rng):
    """The state of a functional event tested inside a collected expression."""
    a, b, pa = rng.random() * 0.5, rng.random() * 0.5, 0.5
    f = ctx.write("m.xml", mef.wrap("""<define-initiating-event name="I" event-tree="T"/>
<define-event-tree name="T"><define-functional-event name="B"/><define-sequence name="X"/><define-sequence name="Y"/>
<define-branch name="rest"><collect-expression><ite><test-functional-event name="B" state="S"/><float value="%r"/><float value="%r"/></ite></collect-expression><sequence name="X"/></define-branch>
<initial-state><fork functional-event="B"><path state="S"><collect-expression><float value="0.5"/></collect-expression><branch name="rest"/></path>
<path state="F"><collect-expression><float value="0.5"/></collect-expression><branch name="rest"/></path></fork></initial-state></define-event-tree>""" % (a, b)))
    rep = load(ctx, ctx.scram(["--probability", "-o", "out.xml", f]))
    v = dict(rep.ies[0][2])["X"]
    ctx.count("tested_state_in_collected_expression")
    if not oracle.close(v, 0.5 * a + 0.5 * b):
        ctx.fail("tfe-in-collected-expression", "0.5*%r + 0.5*%r reported as %r" % (a, b, v))


class Check(core.BaseCheck):
    ID = "C10"
    QUICK, THOROUGH = 2200, 60000
    RULE = ("random event trees over random fault trees: 1-4 trees (links, conditional and repeated links), 1-3 initiating events, forks over ordered functional events, named branches, rules, blocks, nested conditions on "
            "functional and initiating events, house-event settings before and after collections, formula or expression trees; every sequence of every initiating event compared with an independent path interpreter: "
            "sequence list, exact probability, minimal cut sets (or prime implicants), with BDD, ZBDD or MOCUS; the fault tree's own top events must not be affected; non-trivial: a sequence that is neither constant, "
            "distinct by function and number of paths")
    MIN = {"distinct": 1500, "sequences_compared": 5000, "links": 500, "house_sets": 1500, "rules": 800, "named_branches": 400, "if_taken": 500, "if_else": 500, "multi_path_sequences": 1000}
    ASSUMPTIONS = ["an expression tree's sequences are generated with a sum of at most 1", "all declared constructs may appear in any order in the file"]

    def case(self, ctx, rng, idx):
        if idx % 400 == 7:
            return tfe_case(ctx, rng)
        formulas = rng.random() < 0.75
        coherent = rng.random() < 0.6
        for _ in range(50):
            t, vars, vals = gen(rng, [2, 3, 4, 5, 6, 7, 8], coherent, houses=True)
            if not t.houses and rng.random() < 0.6:
                continue
            m = Model(rng, formulas)
            m.coherent, m.stats = coherent, ctx.stats
            m.build(t)
            before = dict(ctx.stats)
            try:
                want = {ie: m.sequences(ie, tr, vars) for ie, tr in m.ies if tr is not None}
            except TooBig:
                ctx.stats.clear()
                ctx.stats.update(before)
                continue
            if not formulas and any(w[0] > 1 or w[2] and w[1] > w[2] for x in want.values() for w in x.values()):
                ctx.stats.clear()
                ctx.stats.update(before)
                continue
            break
        else:
            ctx.count("skipped")
            return
        f = ctx.write("m.xml", m.xml())
        n = len(vars)
        ps = [t.basics[v] for v in vars]
        mode = rng.choice(["bdd", "bdd", "zbdd", "mocus", "prime"])
        if not coherent and mode in ("zbdd", "mocus"):
            mode = "prime"
        args = ["--bdd", "--prime-implicants"] if mode == "prime" else ["--" + mode]
        exact = mode in ("bdd", "prime")
        rep = load(ctx, ctx.scram(args + ["--probability", "--limit-order", "64", "-o", "out.xml", f], timeout=30))
        ctx.sample(open(f).read())
        got_ies = {k[0]: seqs for k, _, seqs in rep.ies}
        if set(got_ies) != set(want) or len(rep.ies) != len(want):
            ctx.fail("initiating-events", "reported %s expected %s" % (sorted(got_ies), sorted(want)), stop=True)
        sops = {(s.key[0], s.key[1]): s for s in rep.sops}
        if len(sops) != len(rep.sops):
            ctx.fail("duplicate-result", "%s" % [s.key for s in rep.sops], stop=True)
        expect = {(top, None) for top in t.tops()}
        if formulas:
            for ie, seqs in want.items():
                expect |= {(s, ie) for s in seqs}
        else:   # Sequences without any collected expression are constant formulas.
            for ie, seqs in want.items():
                expect |= {(s, ie) for s, w in seqs.items() if w[1] == w[2]}
        if set(sops) != expect:
            ctx.fail("results", "reported %s expected %s" % (sorted(map(str, set(sops) - expect)), sorted(map(str, expect - set(sops)))), stop=True)
        for ie, seqs in want.items():
            got = dict(got_ies[ie])
            if set(got) != set(seqs) or len(got_ies[ie]) != len(seqs):
                ctx.fail("sequence-list", "%s: reported %s expected %s" % (ie, sorted(got), sorted(seqs)), stop=True)
            for s, (w, np_, empty) in seqs.items():
                ctx.count("sequences_compared")
                if np_ > 1:
                    ctx.count("multi_path_sequences")
                if not formulas:
                    e = 1.0 if np_ == empty else w
                    if not oracle.close(got[s], e, abs_=1e-12):
                        ctx.fail("expression-value", "%s/%s: value %r want %r (%d paths)" % (ie, s, got[s], e, np_))
                    ctx.sig("e", w, np_)
                    continue
                if exact:
                    e = oracle.probability(w, n, ps)
                    if not oracle.close(got[s], e, abs_=1e-12):
                        ctx.fail("sequence-probability", "%s/%s: value %r want %r (%d paths, %d without formulas)" % (ie, s, got[s], e, np_, empty))
                sop = sops[(s, ie)]
                if sop.p is None or sop.p != got[s] and not oracle.close(sop.p, got[s]):
                    ctx.fail("sequence-value", "%s/%s: value %r but its products say %r" % (ie, s, got[s], sop.p))
                self.products(ctx, mode, sop, w, vars, "%s/%s" % (ie, s))
                if 0 < w < oracle.full(n):
                    ctx.sig(w, n, np_)
        for top in t.tops():
            sop = sops[(top, None)]
            if exact and not oracle.close(sop.p, oracle.probability(vals[top], n, ps), abs_=1e-12):
                ctx.fail("fault-tree-affected", "%s: %r want %r" % (top, sop.p, oracle.probability(vals[top], n, ps)))
            self.products(ctx, mode, sop, vals[top], vars, top)

    def products(self, ctx, mode, sop, tt, vars, note):
        n = len(vars)
        if mode == "prime":
            want = {frozenset((neg, vars[i]) for neg, i in s_) for s_ in oracle.primes(tt, n)}
        else:
            want = lits_of(oracle.mcs(tt, n), vars)
        compare_products(ctx, mode, product_set(sop), want, note)
