"""Models with every construct of the input format: an abstract model and its concrete spellings.

The abstract model (Rich) is a set of items over keys; a Spelling decides names, roles, scopes, order, reference forms and
the division over files.  Meaning does not depend on the spelling, which is what several checks exploit."""
import random
from xml.sax.saxutils import escape, quoteattr
import mef

HOSTILE = ["a < b & c > d", "\"quoted\" 'single'", "]]> <!-- -->", "&amp; &lt; &#38;", "Ünïcödé ☢ 原子力 𝛼", "x=1;y=2,z", "100% ${HOME} $(id) `id`", "back\\slash",
           "<b>bold</b>", "trailing.", "--", "é", "%s%n%d", "a  b", "(1/hours)", "{}[]|^~"]


class Ref:
    """A reference to an item; spelled by the Spelling from the scope it is used in."""
    __slots__ = ("kind", "key")

    def __init__(self, kind, key):
        self.kind, self.key = kind, key


class N:
    __slots__ = ("tag", "at", "ch", "text", "style")

    def __init__(self, tag, at=(), ch=(), text=None):
        self.tag, self.at, self.ch, self.text = tag, dict(at), list(ch), text


def F(x):
    return N("float", {"value": repr(float(x))})


class Item:
    __slots__ = ("kind", "key", "node", "ft", "label", "attrs", "order_free")

    def __init__(self, kind, key, node, ft=None):
        self.kind, self.key, self.node, self.ft = kind, key, node, ft
        self.label, self.attrs, self.order_free = None, None, True


class Rich:
    def __init__(self, rng, size=None, coherent=None, ccf=None, et=None, align=None, subst=None, exprs=True, deco=None, hostile=True, small=False, nft=None, deviates=True):
        self.rng = rng
        self.items = {}            # (kind, key) -> Item
        self.fts = []
        self.exprs, self.deviates = exprs, deviates
        self.coherent = rng.random() < 0.5 if coherent is None else coherent
        self.deco = rng.random() < 0.6 if deco is None else deco
        self.hostile = hostile
        self.model_label = self.model_attrs = None
        self.named_model = rng.random() < 0.6
        self.params, self.public_houses, self.ccf_members, self.et_expr = {}, [], set(), False
        n = nft or rng.choice([1, 1, 2, 3])
        basics, gates, houses = [], [], []
        for i in range(n):
            self.fault_tree(i, basics, gates, houses, small)
        self.basics, self.gates, self.houses = basics, gates, houses
        if ccf if ccf is not None else rng.random() < 0.35:
            self.add_ccf()
        self.params_used_all()
        if et if et is not None else rng.random() < 0.35:
            self.add_event_trees()
        if align if align is not None else rng.random() < 0.25:
            self.add_alignments()
        if subst if subst is not None else rng.random() < 0.2:
            self.add_substitutions()
        if rng.random() < 0.3:
            self.add_unused()
        if self.deco:
            self.decorate()

    # ------------------------------------------------------------ content
    def put(self, kind, key, node, ft=None):
        it = Item(kind, key, node, ft)
        self.items[(kind, key)] = it
        return it

    def fault_tree(self, i, basics, gates, houses, small):
        rng = self.rng
        t = mef.gen_tree(rng, nb=rng.choice([2, 3, 4, 5] if small else [3, 4, 5, 6, 7]), ng=rng.choice([1, 2, 3, 4] if small else [1, 2, 4, 6, 9]),
                         coherent=self.coherent, max_args=4, consts=rng.random() < 0.5)
        ft = "F%d" % i
        self.fts.append(ft)
        m = {}
        for b, p in t.basics.items():
            if basics and rng.random() < 0.3:
                c = rng.choice(basics)
                if c not in m.values():
                    m[b] = c
                    continue
            k = "B%d_%s" % (i, b)
            m[b] = k
            basics.append(k)
            self.put("basic-event", k, N("define-basic-event", {}, [self.prob_expr(p)]), ft)
        for h, s in t.houses.items():
            k = "H%d_%s" % (i, h)
            m[h] = k
            houses.append(k)
            self.put("house-event", k, N("define-house-event", {}, [] if not s and rng.random() < 0.4 else [N("constant", {"value": "true" if s else "false"})]), ft)
        for g in t.gates:
            m[g] = "G%d_%s" % (i, g)
        prev = list(gates)
        for g, d in t.gates.items():
            args = []
            for neg, kind, a in d.args:
                if kind == "c":
                    args.append((neg, "c", a))
                    continue
                if prev and kind == "b" and rng.random() < 0.08:
                    c = rng.choice(prev)
                    if not any(x[2] == c for x in args):
                        args.append((neg, "gate", c))
                        continue
                args.append((neg, {"g": "gate", "b": "basic-event", "h": "house-event"}[kind], m[a]))
            gates.append(m[g])
            self.put("gate", m[g], N("define-gate", {}, [self.formula(d.op, d.k, d.k2, args)]), ft)

    def arg(self, a):
        neg, kind, key = a
        x = N("constant", {"value": "true" if key else "false"}) if kind == "c" else N("@event", {"ref": Ref(kind, key)})
        return N("not", {}, [x]) if neg else x

    def formula(self, op, k, k2, args):
        ch = [self.arg(a) for a in args]
        if op == "null":
            return ch[0]
        at = {"min": str(k)} if op == "atleast" else {"min": str(k), "max": str(k2)} if op == "cardinality" else {}
        n = N(op, at, ch)
        return n

    def unit(self):
        return self.rng.choice([None, None, "bool", "int", "float", "hours", "hours-1", "years", "years-1", "fit", "demands"])

    def param(self, node, what="prob"):
        k = "P%d" % len(self.params)
        self.params[k] = what
        at = {}
        u = self.unit()
        if u:
            at["unit"] = u
        self.put("parameter", k, N("define-parameter", at, [node]), self.rng.choice(self.fts))
        return N("parameter", {"name": Ref("parameter", k)})

    def prob_expr(self, p):
        rng = self.rng
        p = min(max(float(p), 0.0), 1.0)
        r = 1 if type(self.deviates) is float and rng.random() < self.deviates else rng.random()  # A share of deviates.
        if not self.exprs or r < 0.5:
            return F(p)
        probs = [k for k, w in self.params.items() if w == "prob"]
        if r < 0.6 and probs:
            return N("parameter", {"name": Ref("parameter", rng.choice(probs))})
        if r < 0.7:
            return self.param(F(p))
        if r < 0.78:
            lam = F(10 ** rng.uniform(-7, -4))
            return N("exponential", {}, [self.param(lam, "rate") if rng.random() < 0.5 else lam, N("system-mission-time")])
        if r < 0.84:
            return N("mul", {}, [F(p), self.param(F(rng.random()))])
        if r < 0.88:
            return N("sub", {}, [F(1), F(p)])
        if r < 0.92:
            return N("GLM", {}, [F(p), F(10 ** rng.uniform(-6, -3)), F(10 ** rng.uniform(-3, -1)), N("system-mission-time")])
        if not self.deviates:
            return F(p)
        lo, hi = sorted([rng.random() * 0.5, 0.5 + rng.random() * 0.5])
        d = rng.choice([lambda: N("uniform-deviate", {}, [F(lo), F(hi)]), lambda: N("beta-deviate", {}, [F(rng.uniform(1, 5)), F(rng.uniform(1, 5))]),
                        lambda: N("histogram", {}, [F(0.0), N("bin", {}, [F(lo), F(1)]), N("bin", {}, [F(hi), F(2)])])])()
        return self.param(d) if rng.random() < 0.5 else d

    def params_used_all(self):
        pass

    def add_ccf(self):
        rng = self.rng
        for g in range(rng.choice([1, 1, 2])):
            free = [b for b in self.basics if b not in self.ccf_members and ("basic-event", b) in self.items]
            if len(free) < 2:
                return
            mem = rng.sample(free, min(len(free), rng.choice([2, 2, 3, 4])))
            self.ccf_members.update(mem)
            for b in mem:
                del self.items[("basic-event", b)]
            model = rng.choice(["beta-factor", "MGL", "alpha-factor", "phi-factor"])
            n = len(mem)
            if model == "beta-factor":
                fs = [(n, rng.uniform(0.02, 0.4))]
            elif model == "MGL":
                fs = [(l, rng.uniform(0.02, 0.4)) for l in range(2, rng.randint(2, n) + 1)]
            elif model == "alpha-factor":
                fs = [(l, rng.uniform(0.05, 1)) for l in range(1, n + 1)]
            else:
                w = [rng.uniform(0.1, 1) for _ in range(n)]
                fs = [(l + 1, x / sum(w)) for l, x in enumerate(w)]
            node = N("define-CCF-group", {"model": model}, [
                N("members", {}, [N("basic-event", {"name": Ref("ccf-member", b)}) for b in mem]),
                N("distribution", {}, [self.param(F(rng.uniform(0.01, 0.3))) if rng.random() < 0.3 else F(rng.uniform(0.01, 0.3))]),
                N("factors", {}, [N("factor", {"level": str(l)}, [F(x)]) for l, x in fs])])
            key = "C%d" % g
            it = self.put("CCF-group", key, node, rng.choice(self.fts))
            for b in mem:
                self.ccf_of = getattr(self, "ccf_of", {})
                self.ccf_of[b] = key

    def house_set(self):
        rng = self.rng
        h = rng.choice(self.public_houses)
        return N("set-house-event", {"name": Ref("public-house", h), **({"direction": "forward"} if rng.random() < 0.2 else {})}, [N("constant", {"value": rng.choice(["true", "false"])})])

    def need_houses(self):
        if not self.public_houses:
            self.public_houses = [h for h in self.houses if self.rng.random() < 0.7]
            if not self.public_houses:
                k = "Hx"
                self.houses.append(k)
                self.public_houses = [k]
                self.put("house-event", k, N("define-house-event", {}, [N("constant", {"value": "true"})]), self.rng.choice(self.fts))

    def add_event_trees(self):
        rng = self.rng
        self.need_houses()
        self.et_expr = rng.random() < 0.3
        ne = rng.choice([1, 1, 2])
        nr = rng.choice([0, 1, 2])
        self.ets, self.rules, self.fes, self.seqs = ["E%d" % i for i in range(ne)], ["R%d" % i for i in range(nr)], {}, {}

        def collect(neg=False, fe=None):
            if self.et_expr:
                return N("collect-expression", {}, [N("sub", {}, [F(1), F(fe)]) if neg else F(fe)])
            a = rng.choice(self.gates + self.basics)
            kind = "gate" if a in self.gates else "basic-event"
            return N("collect-formula", {}, [N("not", {}, [self.arg((False, kind, a))]) if neg and not self.coherent else self.arg((False, kind, a))])

        def test(i):
            if rng.random() < 0.7:
                e = rng.choice(list(self.fes.get(i) or ["Q0_0"]))
                return N("test-functional-event", {"name": Ref("functional-event", e), "state": rng.choice(["S", "F"])})
            return N("test-initiating-event", {"name": Ref("initiating-event", "I0")})

        for r in self.rules:
            ins = [self.house_set() for _ in range(rng.choice([1, 2]))]
            if rng.random() < 0.4:
                ins.append(N("if", {}, [N("test-initiating-event", {"name": Ref("initiating-event", "I0")}), self.house_set()] + ([self.house_set()] if rng.random() < 0.5 else [])))
            it = self.put("rule", r, N("define-rule", {}, ins))
            it.order_free = False
        for i, e in enumerate(self.ets):
            self.fes[i] = ["Q%d_%d" % (i, k) for k in range(rng.choice([1, 2, 3]))]
            self.seqs[i] = ["S%d_%d" % (i, k) for k in range(rng.choice([1, 2, 3]))]
            p = {q: rng.uniform(0.05, 0.95) for q in self.fes[i]}

            def ins():
                out = []
                if rng.random() < 0.3:
                    out.append(self.house_set())
                if self.rules and rng.random() < 0.3:
                    out.append(N("rule", {"name": Ref("rule", rng.choice(self.rules))}))
                if rng.random() < 0.15:
                    out.append(N("if", {}, [test(i), N("block", {}, [self.house_set()])]))
                return out

            def branch(k):
                if k < len(self.fes[i]) and rng.random() < 0.85:
                    q = self.fes[i][k]
                    paths = [N("path", {"state": s}, ins() + [collect(s == "S", p[q])] + branch(k + 1)) for s in ("F", "S")]
                    return [N("fork", {"functional-event": Ref("functional-event", q)}, paths)]
                return [N("sequence", {"name": Ref("sequence", rng.choice(self.seqs[i]))})]
            defs = [N("define-functional-event", {"@name": Ref("functional-event", q)}) for q in self.fes[i]]
            seqs = []
            for s in self.seqs[i]:
                ch = ins() if rng.random() < 0.3 else []
                if i + 1 < ne and rng.random() < 0.3:
                    ch.append(N("event-tree", {"name": Ref("event-tree", self.ets[i + 1])}))
                seqs.append(N("define-sequence", {"@name": Ref("sequence", s)}, ch))
            brs = []
            if rng.random() < 0.3:
                brs.append(N("define-branch", {"@name": Ref("branch", "X%d" % i)}, [N("sequence", {"name": Ref("sequence", self.seqs[i][0])})]))
            q = self.fes[i][0]
            init = branch(0)
            it = self.put("event-tree", e, N("define-event-tree", {}, defs + seqs + brs + [N("initial-state", {}, ins() + init)]))
            it.order_free = False
        for k in range(rng.choice([1, 1, 2])):
            at = {} if k and rng.random() < 0.3 else {"event-tree": Ref("event-tree", self.ets[0] if not k else rng.choice(self.ets))}
            self.put("initiating-event", "I%d" % k, N("define-initiating-event", at))

    def add_alignments(self):
        rng = self.rng
        self.need_houses()
        for a in range(rng.choice([1, 1, 2])):
            n = rng.choice([1, 2, 3])
            w = [rng.uniform(0.1, 1) for _ in range(n)]
            ph = [N("define-phase", {"@name": Ref("phase", "A%d_%d" % (a, k)), "time-fraction": repr(x / sum(w))}, [self.house_set() for _ in range(rng.choice([0, 1, 2]))])
                  for k, x in enumerate(w)]
            it = self.put("alignment", "A%d" % a, N("define-alignment", {}, ph))
            it.order_free = False

    def add_substitutions(self):
        rng = self.rng
        free = [b for b in self.basics if b not in self.ccf_members]
        if len(free) < 3:
            return
        b = rng.sample(free, 3)
        ev = lambda x: N("basic-event", {"name": Ref("basic-event", x)})
        kind = rng.choice(["delete-terms", "recovery-rule"])
        if kind == "delete-terms":
            n = N("define-substitution", {"type": kind} if rng.random() < 0.5 else {}, [
                N("hypothesis", {}, [N("and", {}, [ev(b[0]), ev(b[1])])]), N("target", {}, [N("constant", {"value": "false"})])])
        else:
            n = N("define-substitution", {"type": kind} if rng.random() < 0.5 else {}, [
                N("hypothesis", {}, [N("and", {}, [ev(b[0]), ev(b[1])])]), N("target", {}, [ev(b[2])])])
        self.put("substitution", "D0", n).order_free = False

    def add_unused(self):
        rng = self.rng
        if rng.random() < 0.6:
            self.put("basic-event", "Bun", N("define-basic-event", {}, [F(rng.random())] if rng.random() < 0.9 else [F(0.5)]), rng.choice(self.fts))
        if rng.random() < 0.5:
            self.put("house-event", "Hun", N("define-house-event", {}, []), rng.choice(self.fts))
        if rng.random() < 0.5:
            self.put("parameter", "Pun", N("define-parameter", {}, [F(rng.random())]), rng.choice(self.fts))

    def text(self):
        rng = self.rng
        if self.hostile and rng.random() < 0.6:
            return rng.choice(HOSTILE) + ("" if rng.random() < 0.5 else " " + rng.choice(HOSTILE))
        return rng.choice(["a label", "Pump failure", "x", "Two words"])

    def attr_list(self):
        rng = self.rng
        names = rng.sample(["a", "color", "n-1", "_q", "Ünicode", "key"], rng.randint(0, 3))
        return [(n, self.text(), self.text() if rng.random() < 0.3 else None) for n in names]

    def decorate(self):
        rng = self.rng
        for it in self.items.values():
            if rng.random() < 0.35:
                it.label = self.text()
            if rng.random() < 0.3:
                it.attrs = self.attr_list()
        if rng.random() < 0.5:
            self.model_label = self.text()
        if rng.random() < 0.5:
            self.model_attrs = self.attr_list()


NAMEBASES = ["pump", "Valve", "tank_1", "_x", "é", "Насос", "a-b", "X-1-y", "ev", "原", "q", "n0-n1", "true", "and", "name", "__", "π2", "Z"]


class Unspellable(Exception):
    """A reference has no spelling from its scope (hidden by another element)."""


def spell(model, rng, **kw):
    """(spelling, documents)"""
    for k in range(60):
        if k == 40:
            kw["shadow"] = False
        try:
            s = Spelling(model, rng, **kw)
            return s, s.files()
        except Unspellable:
            continue
    s = Spelling(model, rng, **dict(kw, private=False, shadow=False))
    return s, s.files()


class Spelling:
    """One concrete way of writing a Rich model down."""

    def __init__(self, model, rng, plain=False, comps=True, private=True, shadow=True, rename=True, nfiles=1, shuffle=True, base=None):
        self.m, self.rng, self.plain = model, rng, plain
        self.shuffle = shuffle and not plain
        self.nfiles = nfiles
        self.names, self.scope, self.role = {}, {}, {}
        self.comps = {}          # key -> (parent scope, role attr)
        m = model
        for ft in m.fts:
            for k in range(rng.choice([0, 0, 1, 2, 3]) if comps and not plain else 0):
                ck = "%s/K%d" % (ft, k)
                parent = rng.choice([ft] + [c for c in self.comps if c.startswith(ft + "/")])
                self.comps[ck] = (parent, rng.choice([None, None, "private", "public"]) if private else None)
        # Scopes and roles.
        for (kind, key), it in m.items.items():
            if kind in ("gate", "basic-event", "house-event", "parameter", "CCF-group"):
                if plain:
                    self.scope[(kind, key)] = it.ft if kind == "gate" else None
                    self.role[(kind, key)] = None
                    continue
                ft = it.ft if kind == "gate" or rng.random() < 0.8 else rng.choice(m.fts)
                sc = rng.choice([ft] + [c for c in self.comps if c.startswith(ft + "/")])
                role = rng.choice([None, None, None, "private", "public"]) if private else None
                if kind != "gate" and (kind != "CCF-group" or True) and rng.random() < 0.35:
                    sc = None
                    role = rng.choice([None, "public"]) if private else None
                if kind == "CCF-group":
                    role = None
                if kind == "house-event" and key in m.public_houses and sc is not None:
                    role = "public"
                self.scope[(kind, key)] = sc
                self.role[(kind, key)] = role
        # Names.
        used_pub, used_path, used_param = set(), set(), set()
        self.base = base or rng.choice(["", "p", "Q-"])

        def fresh(taken, hint):
            if plain:
                n = hint.replace("/", "_").replace(".", "_")
                while n in taken:
                    n += "_"
                return n
            for _ in range(1000):
                n = rng.choice(NAMEBASES) + ("" if rng.random() < 0.15 else str(rng.randrange(60))) if rename else hint.replace("/", "_")
                if n not in taken:
                    return n
            return hint.replace("/", "_") + "_u"
        scopes = set()
        for ft in m.fts:
            self.names[("scope", ft)] = fresh(scopes, ft)
            scopes.add(self.names[("scope", ft)])
        for c in self.comps:
            sib = {self.names[("scope", x)] for x in self.comps if self.comps[x][0] == self.comps[c][0] and ("scope", x) in self.names}
            self.names[("scope", c)] = fresh(sib, c)
        order = [k for k in m.items if k[0] in ("gate", "basic-event", "house-event", "CCF-group")]
        ev_pub, ev_paths = set(), set()
        ccf_names = set()
        for kk in order:
            kind, key = kk
            members = [(kind, key)]
            if kind == "CCF-group":
                nm = fresh(ccf_names, key)
                ccf_names.add(nm)
                self.names[kk] = nm
                members = [("basic-event", b) for b, c in getattr(m, "ccf_of", {}).items() if c == key]
                for mb in members:
                    self.scope[mb], self.role[mb] = self.scope[kk], self.role[kk]
            for mk in members:
                path = self.path(self.scope[mk])
                for _ in range(500):
                    n = fresh(set(), mk[1]) if not (shadow and ev_pub and rng.random() < 0.15) else rng.choice(sorted(ev_pub))
                    if plain and n in ev_pub:
                        n = mk[1] + "_%d" % len(ev_pub)
                    full = path + "." + n if path else n
                    if full in ev_paths or (self.public(mk) and n in ev_pub):
                        continue
                    break
                else:
                    n = "u%d" % len(ev_paths)
                    full = path + "." + n if path else n
                self.names[mk] = n
                ev_paths.add(full)
                if self.public(mk):
                    ev_pub.add(n)
        par_pub, par_paths = set(), set()
        for kk in m.items:
            if kk[0] != "parameter":
                continue
            path = self.path(self.scope[kk])
            for _ in range(500):
                n = fresh(set(), kk[1]) if not (shadow and par_pub and rng.random() < 0.15) else rng.choice(sorted(par_pub))
                full = path + "." + n if path else n
                if full in par_paths or (self.public(kk) and n in par_pub):
                    continue
                break
            else:
                n = "u%d" % len(par_paths)
                full = path + "." + n if path else n
            self.names[kk] = n
            par_paths.add(full)
            if self.public(kk):
                par_pub.add(n)
        for ns in ("initiating-event", "event-tree", "rule", "alignment", "substitution"):
            taken = set()
            for kk in m.items:
                if kk[0] == ns:
                    self.names[kk] = fresh(taken, kk[1])
                    taken.add(self.names[kk])
        taken = set()
        for l in getattr(m, "seqs", {}).values():
            for s in l:
                self.names[("sequence", s)] = fresh(taken, s)
                taken.add(self.names[("sequence", s)])
        for l in getattr(m, "fes", {}).values():
            taken = set()
            for s in l:
                self.names[("functional-event", s)] = fresh(taken, s)
                taken.add(self.names[("functional-event", s)])
        self.model_name = fresh(set(), "Model") if m.named_model else None
        # Tables for reference resolution.
        self.tab = {"event": ({}, {}), "gate": ({}, {}), "basic-event": ({}, {}), "house-event": ({}, {}), "parameter": ({}, {})}
        for kk in list(self.scope):
            if kk[0] in self.tab:
                n = self.names[kk]
                path = self.path(self.scope[kk])
                full = path + "." + n if path else n
                for t in (kk[0], "event") if kk[0] != "parameter" else ("parameter",):
                    self.tab[t][1][full] = kk
                    if self.public(kk):
                        self.tab[t][0][n] = kk

    # ------------------------------------------------------------ scopes
    def chain(self, sc):
        out = []
        while sc is not None:
            out.append(sc)
            sc = self.comps[sc][0] if sc in self.comps else None
        return out[::-1]

    def path(self, sc):
        return ".".join(self.names[("scope", s)] for s in self.chain(sc))

    def public(self, kk):
        r = self.role.get(kk)
        if r:
            return r == "public"
        for s in reversed(self.chain(self.scope.get(kk))):
            if s in self.comps and self.comps[s][1]:
                return self.comps[s][1] == "public"
        return True

    def id(self, kind, key):
        """The identifier used in reports."""
        kk = (kind, key)
        if self.public(kk):
            return self.names[kk]
        return self.path(self.scope[kk]) + "." + self.names[kk]

    def ids(self):
        """report id -> key of every event."""
        return {self.id(*kk): kk[1] for kk in self.scope if kk[0] in ("gate", "basic-event", "house-event")}

    def resolve(self, table, ref, base):
        pub, paths = self.tab[table]
        if base and base + "." + ref in paths:
            return paths[base + "." + ref]
        if "." not in ref:
            return pub.get(ref)
        return paths.get(ref)

    def refs(self, kk, table, base):
        n = self.names[kk]
        path = self.path(self.scope[kk])
        full = path + "." + n if path else n
        cand = {n, full}
        if base and full.startswith(base + "."):
            cand.add(full[len(base) + 1:])
        return sorted(c for c in cand if self.resolve(table, c, base) == kk)

    # ------------------------------------------------------------ XML
    def ref(self, r, base):
        k = r.kind
        if k in ("functional-event", "sequence", "branch", "phase", "event-tree", "rule", "initiating-event"):
            return self.names.get((k, r.key)) or r.key
        if k == "ccf-member":
            return self.names[("basic-event", r.key)]
        if k == "public-house":
            return self.names[("house-event", r.key)]
        c = self.refs((k, r.key), k, base)
        if not c:
            raise Unspellable((k, r.key, base))
        return c[0] if self.plain and len(c) == 1 else self.rng.choice(c)

    def node(self, n, base, ind=0):
        rng = self.rng
        if n.tag == "@event":
            r = n.at["ref"]
            style = 0 if self.plain else rng.choice([0, 0, 0, 1, 2])
            if style == 0:
                return '<%s name="%s"/>' % (r.kind, self.ref(r, base))
            if style == 2:
                return '<event name="%s" type="%s"/>' % (self.ref(r, base), r.kind)
            c = self.refs((r.kind, r.key), "event", base)
            if not c:
                return '<%s name="%s"/>' % (r.kind, self.ref(r, base))
            return '<event name="%s"/>' % rng.choice(c)
        at = []
        for k, v in n.at.items():
            at.append((k.lstrip("@"), self.ref(v, base) if isinstance(v, Ref) else v))
        ch = n.ch
        if self.shuffle and n.tag in ("and", "or", "atleast", "cardinality", "nand", "nor", "xor", "iff", "members", "source"):
            ch = ch[:]
            rng.shuffle(ch)
        inner = "".join(self.node(c, base) for c in ch)
        return self.tag(n.tag, at, inner)

    def tag(self, tag, at, inner):
        if not self.plain and self.rng.random() < 0.2:
            at = at[::-1]
        a = "".join(" %s=%s" % (k, quoteattr(v)) for k, v in at)
        return "<%s%s>%s</%s>" % (tag, a, inner, tag) if inner else "<%s%s/>" % (tag, a)

    def deco(self, it):
        return self.deco_text(it.label, it.attrs)

    def deco_text(self, label, attrs):
        s = ""
        if label:
            s += "<label>%s</label>" % escape(label)
        if attrs is not None:
            s += "<attributes>%s</attributes>" % "".join("<attribute name=%s value=%s%s/>" % (quoteattr(n), quoteattr(v), " type=%s" % quoteattr(t) if t else "") for n, v, t in attrs)
        return s

    def item(self, kk):
        it = self.m.items[kk]
        sc = self.scope.get(kk)
        base = self.path(sc)
        at = [("name", self.names[kk])]
        if self.role.get(kk) and kk[0] != "CCF-group":
            at.append(("role", self.role[kk]))
        for k, v in it.node.at.items():
            at.append((k.lstrip("@"), self.ref(v, base) if isinstance(v, Ref) else v))
        return self.tag(it.node.tag, at, self.deco(it) + "".join(self.node(c, base) for c in it.node.ch))

    def container(self, sc):
        own = [self.item(kk) for kk in self.m.items if self.scope.get(kk) == sc and kk in self.m.items and sc is not None]
        own += [self.container(c) for c, (p, _) in self.comps.items() if p == sc]
        if self.shuffle:
            self.rng.shuffle(own)
        at = [("name", self.names[("scope", sc)])]
        if sc in self.comps and self.comps[sc][1]:
            at.append(("role", self.comps[sc][1]))
        return self.tag("define-component" if sc in self.comps else "define-fault-tree", at, "\n".join([""] + own + [""]))

    def files(self):
        """XML documents; the model is their union."""
        m, rng = self.m, self.rng
        tops, data = [], []
        for ft in m.fts:
            tops.append(self.container(ft))
        for kk in m.items:
            if kk[0] in ("initiating-event", "event-tree", "rule", "alignment", "substitution"):
                tops.append(self.item(kk))
            elif kk[0] == "CCF-group" and self.scope[kk] is None:
                tops.append(self.item(kk))
            elif kk[0] in ("basic-event", "house-event", "parameter") and self.scope[kk] is None:
                data.append(self.item(kk))
        if self.shuffle:
            rng.shuffle(tops)
            rng.shuffle(data)
        nf = self.nfiles
        docs = [[] for _ in range(nf)]
        for t in tops:
            docs[rng.randrange(nf)].append(t)
        if self.shuffle and len(data) > 1 and rng.random() < 0.5:
            cut = rng.randrange(1, len(data))
            parts = [data[:cut], data[cut:]]
        else:
            parts = [data]
        for p in parts:
            if p or rng.random() < 0.1:
                docs[rng.randrange(nf)].insert(0 if rng.random() < 0.3 else 10 ** 6, "<model-data>\n%s\n</model-data>" % "\n".join(p))
        out = []
        for i, d in enumerate(docs):
            name = ' name="%s"' % self.model_name if i == 0 and self.model_name else ""
            if not d and not name:
                d = ["<model-data/>"]
            head = self.deco_text(m.model_label, m.model_attrs) if i == 0 else ""
            out.append('<?xml version="1.0" encoding="UTF-8"?>\n<opsa-mef%s>%s\n%s\n</opsa-mef>\n' % (name, head, "\n".join(d)))
        return out
