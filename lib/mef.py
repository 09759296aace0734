"""Model AST for fault trees, its XML writer and the random generators."""
from xml.sax.saxutils import quoteattr

# An argument is (neg, kind, name): kind g(ate) b(asic) h(ouse) c(onstant, name is True/False).


class Gate:
    __slots__ = ("op", "args", "k", "k2")

    def __init__(self, op, args, k=None, k2=None):
        self.op, self.args, self.k, self.k2 = op, list(args), k, k2

    def copy(self):
        return Gate(self.op, self.args, self.k, self.k2)


class Tree:
    """One fault tree: gates in definition order, basic events with probabilities, house events with states."""

    def __init__(self, name="ft"):
        self.name = name
        self.gates = {}
        self.basics = {}     # name -> float, or XML text of an expression, or None
        self.houses = {}     # name -> bool
        self.ccf = []        # XML texts
        self.extra = []      # XML texts inside the fault tree (parameters, ...)

    def tops(self):
        used = {a[2] for g in self.gates.values() for a in g.args if a[1] == "g"}
        return [g for g in self.gates if g not in used]


def arg_xml(a, style=0):
    neg, kind, name = a
    if kind == "c":
        x = '<constant value="%s"/>' % ("true" if name else "false")
    elif style == 1:
        x = "<event name=%s/>" % quoteattr(name)
    elif style == 2:
        x = "<event name=%s type=%s/>" % (quoteattr(name), quoteattr({"g": "gate", "b": "basic-event", "h": "house-event"}[kind]))
    else:
        x = "<%s name=%s/>" % ({"g": "gate", "b": "basic-event", "h": "house-event"}[kind], quoteattr(name))
    return "<not>%s</not>" % x if neg else x


def formula_xml(g, style=lambda a: 0):
    inner = "".join(arg_xml(a, style(a)) for a in g.args)
    if g.op == "null":
        return inner
    if g.op == "atleast":
        return '<atleast min="%d">%s</atleast>' % (g.k, inner)
    if g.op == "cardinality":
        return '<cardinality min="%d" max="%d">%s</cardinality>' % (g.k, g.k2, inner)
    return "<%s>%s</%s>" % (g.op, inner, g.op)


def num(x):
    return repr(float(x))


def basic_xml(name, p):
    if p is None:
        return "<define-basic-event name=%s/>" % quoteattr(name)
    if isinstance(p, (int, float)):
        p = '<float value="%s"/>' % num(p)
    return "<define-basic-event name=%s>%s</define-basic-event>" % (quoteattr(name), p)


def house_xml(name, s):
    if s is None:
        return "<define-house-event name=%s/>" % quoteattr(name)
    return '<define-house-event name=%s><constant value="%s"/></define-house-event>' % (quoteattr(name), "true" if s else "false")


def gate_xml(name, g, style=lambda a: 0):
    return "<define-gate name=%s>%s</define-gate>" % (quoteattr(name), formula_xml(g, style))


def tree_body(t, style=lambda a: 0, rng=None):
    items = [gate_xml(n, g, style) for n, g in t.gates.items()]
    items += [basic_xml(n, p) for n, p in t.basics.items()]
    items += [house_xml(n, s) for n, s in t.houses.items()]
    items += t.ccf + t.extra
    if rng:
        rng.shuffle(items)
    return "\n".join(items)


def wrap(body, name=None):
    return '<?xml version="1.0"?>\n<opsa-mef%s>\n%s\n</opsa-mef>\n' % (" name=%s" % quoteattr(name) if name else "", body)


def tree_xml(t, style=lambda a: 0, rng=None):
    return wrap("<define-fault-tree name=%s>\n%s\n</define-fault-tree>" % (quoteattr(t.name), tree_body(t, style, rng)))


# ---------------------------------------------------------------- generators

COHERENT = ["and", "or", "atleast", "null"]
NONCOH = ["not", "xor", "nand", "nor", "iff", "imply", "cardinality"]


def prob(rng):
    r = rng.random()
    if r < 0.45:
        return round(rng.uniform(0.01, 0.95), 3)
    if r < 0.6:
        return round(10 ** rng.uniform(-9, -1), 12)
    if r < 0.75:
        return rng.choice([0.5, 0.1, 0.01, 1e-3])
    if r < 0.8:
        return rng.choice([0.0, 1.0])
    return rng.random()


def gen_tree(rng, nb=None, ng=None, coherent=True, consts=True, p=prob, max_args=5, profile=None, houses=None):
    """Random DAG-shaped fault tree with structure the preprocessor reacts to."""
    nb = nb or rng.choice([2, 3, 4, 5, 6, 7, 8, 9, 10])
    ng = ng or max(1, int(rng.choice([1, 2, 3, 5, 8, 12, 16, 22])))
    profile = profile or rng.choice(["mix", "mix", "mix", "and-or", "vote", "shared", "chain", "module", "distrib", "clone", "null", "mix"])
    t = Tree()
    bs = ["b%d" % i for i in range(1, nb + 1)]
    if rng.random() < 0.3:
        rng.shuffle(bs)
    t.basics = {b: p(rng) for b in bs}
    use_const = consts and rng.random() < 0.4
    hs = []
    if use_const and (houses is None or houses):
        hs = ["h%d" % i for i in range(1, rng.randint(1, 3) + 1)]
        t.houses = {h: rng.random() < 0.5 for h in hs}
    pneg = 0.0 if coherent else rng.choice([0.0, 0.1, 0.3])
    pconst = rng.choice([0.04, 0.12]) if use_const else 0.0
    ops = {"mix": ["and", "or", "and", "or", "atleast", "null"], "and-or": ["and", "or"], "vote": ["atleast", "atleast", "or", "and"],
           "shared": ["and", "or", "atleast"], "chain": ["and", "or", "null"], "module": ["and", "or", "atleast"],
           "distrib": ["and", "or"], "clone": ["and", "or", "atleast"], "null": ["null", "and", "or"]}[profile]
    if not coherent:
        w = rng.choice([1, 2, 4])
        ops = ops * (2 if w < 4 else 1) + rng.sample(NONCOH, rng.randint(1, len(NONCOH))) * (1 if w == 1 else 2)
    gs = ["g%d" % i for i in range(1, ng + 1)]
    shareb = bs[:max(2, nb // 2)] if profile == "shared" else bs

    for i in range(ng - 1, -1, -1):
        lower = gs[i + 1:]
        op = rng.choice(ops)
        pool_g = lower[:4] if profile == "chain" else lower

        def pick():
            if pconst and rng.random() < pconst:
                if hs and rng.random() < 0.6:
                    return ("h", rng.choice(hs))
                return ("c", rng.random() < 0.5)
            if pool_g and rng.random() < (0.75 if profile == "chain" else 0.5):
                return ("g", rng.choice(pool_g))
            return ("b", rng.choice(shareb if rng.random() < 0.8 else bs))
        avail = len(set(pool_g)) + nb
        if op in ("not", "null"):
            want = 1
        elif op in ("xor", "iff", "imply"):
            want = 2
        elif op == "atleast":
            want = rng.randint(3, max(3, max_args))
        elif op == "cardinality":
            want = rng.randint(1, max_args)
        else:
            want = rng.randint(2, max_args)
        args, seen = [], set()
        for _ in range(60):
            if len(args) == want:
                break
            a = pick()
            if a in seen:
                continue
            if a[0] == "c" and any(x[1] == "c" for x in args):
                continue  # A gate takes each constant at most once.
            seen.add(a)
            args.append((rng.random() < pneg and a[0] != "c", a[0], a[1]))
        if op == "not":  # The grammar has no double negation.
            args = [(False, args[0][1], args[0][2])]
            if args[0][1] == "c":
                op = "null"
        elif op == "null":
            pass
        elif len(args) < 2 and op != "cardinality":
            op = "null"
            args = args[:1]
        elif op == "atleast" and len(args) < 3:
            op = "and"
        elif op in ("xor", "iff", "imply") and len(args) != 2:
            op = "or"
        g = Gate(op, args)
        if op == "atleast":
            g.k = rng.randint(2, len(args) - 1)
        if op == "cardinality":
            g.k = rng.randint(0, len(args))
            g.k2 = rng.randint(g.k, len(args))
        t.gates[gs[i]] = g
    t.gates = {n: t.gates[n] for n in gs}

    if profile == "clone" or rng.random() < 0.25:  # Duplicate definitions.
        for _ in range(rng.randint(1, 3)):
            src = rng.choice(gs)
            n = "k%d" % (len(t.gates) + 1)
            c = t.gates[src].copy()
            if c.op not in ("imply",):
                rng.shuffle(c.args)
            t.gates[n] = c
            hosts = [h for h in gs if gs.index(h) < gs.index(src) and t.gates[h].op in ("and", "or", "atleast", "nand", "nor")]
            if hosts:
                t.gates[rng.choice(hosts)].args.append((rng.random() < pneg, "g", n))
    if profile == "distrib" or rng.random() < 0.2:
        add_distrib(rng, t, gs, bs, pneg)
    if rng.random() < 0.8:  # One top event.
        attach_tops(rng, t, gs[0])
    return t


def add_distrib(rng, t, gs, bs, pneg):
    """(a & x) | (a & y) | ... patterns, with several common arguments and overlapping groups."""
    hosts = [g for g in gs if t.gates[g].op in ("and", "or", "nand", "nor")]
    if not hosts:
        return
    host = rng.choice(hosts)
    opp = "and" if t.gates[host].op in ("or", "nor") else "or"
    if rng.random() < 0.2:
        opp = {"and": "or", "or": "and"}[opp]
    common = rng.sample(bs, min(len(bs), rng.randint(1, 2)))
    rest = [b for b in bs if b not in common]
    for i in range(rng.randint(2, 4)):
        n = "d%d" % (len(t.gates) + 1)
        own = rng.sample(rest, min(len(rest), rng.randint(0, 2)))
        cs = common if rng.random() < 0.7 else common[:1]
        names = list(dict.fromkeys(cs + own))
        if len(names) < 2:
            continue
        rng.shuffle(names)
        t.gates[n] = Gate(opp, [(False, "b", x) for x in names])
        t.gates[host].args.append((rng.random() < pneg, "g", n))


def attach_tops(rng, t, root):
    names = list(t.gates)
    for top in t.tops():
        if top == root:
            continue
        # Mostly somewhere above in definition order, so that the root does not swallow everything.
        up = [n for n in names[:names.index(top)] if t.gates[n].op in ("and", "or", "nand", "nor", "atleast", "cardinality") and n[0] in "gr"
              and len(t.gates[n].args) < 6] if top[0] == "g" else []
        g = t.gates[rng.choice(up)] if up and rng.random() < 0.85 else t.gates[root]
        if g.op in ("and", "or", "nand", "nor", "atleast", "cardinality"):
            g.args.append((False, "g", top))
        else:
            # The root becomes a variadic gate over its old self.
            n = "r%d" % (len(t.gates) + 1)
            t.gates[n] = t.gates.pop(root)
            names = [root, n] + [x for x in names if x != root]
            t.gates = {root: Gate(rng.choice(["and", "or"]), [(False, "g", n), (False, "g", top)]), **t.gates}


def used_basics(t, top):
    seen, stack, out = set(), [top], []
    while stack:
        n = stack.pop()
        if n in seen:
            continue
        seen.add(n)
        for _, k, a in t.gates[n].args:
            if k == "g":
                stack.append(a)
            elif k == "b" and a not in out:
                out.append(a)
    return out


NEG = {"and": "nand", "nand": "and", "or": "nor", "nor": "or", "xor": "iff", "iff": "xor", "null": "not", "not": "null"}


def negate(t, name):
    """Complements a gate in place when its connective has a dual; returns success."""
    g = t.gates[name]
    if g.op in ("null", "not") and g.args[0][0]:
        return False
    if g.op == "null" and g.args[0][1] == "c":
        return False
    if g.op in NEG:
        g.op = NEG[g.op]
        return True
    if g.op == "imply":  # ~(a -> b) = a & ~b
        a, b = g.args
        if b[1] == "c":
            return False
        g.op, g.args = "and", [a, (not b[0], b[1], b[2])]
        return True
    return False


def gen_modular(rng, maxb=9, p=prob):
    """Layers of gates over small, mostly non-coherent modules with private variables."""
    t = Tree()
    nb = [0]
    ng = [0]

    def basic():
        nb[0] += 1
        b = "b%d" % nb[0]
        t.basics[b] = p(rng)
        return (False, "b", b)

    def add(op, args, k=None, k2=None):
        ng[0] += 1
        g = "g%d" % ng[0]
        t.gates[g] = Gate(op, args, k, k2)
        return (False, "g", g)

    def sign(a, q):
        return (rng.random() < q, a[1], a[2])

    def unit():
        room = maxb - nb[0]
        kinds = ["basic", "basic", "and", "or"]
        if room >= 2:
            kinds += ["iff", "xor", "nand", "nor", "neg", "imply", "iff", "neg"]
        if room >= 3:
            kinds += ["card", "mux", "vote"]
        k = rng.choice(kinds) if room >= 2 else "basic"
        if k == "basic":
            return sign(basic(), 0.15)
        if k in ("iff", "xor", "imply"):
            return sign(add(k, [basic(), basic()]), 0.1)
        if k in ("nand", "nor", "and", "or"):
            return add(k, [basic() for _ in range(min(room, rng.choice([2, 2, 3])))])
        if k == "neg":
            return add(rng.choice(["and", "or"]), [sign(basic(), 0.6) for _ in range(min(room, rng.choice([2, 2, 3])))])
        if k == "vote":
            return add("atleast", [sign(basic(), 0.4) for _ in range(3)], 2)
        if k == "card":
            lo = rng.randint(0, 2)
            return add("cardinality", [basic() for _ in range(3)], lo, rng.randint(lo, 2))
        s, a, b = basic(), basic(), basic()
        return add("or", [add("and", [s, a]), add("and", [(True,) + s[1:], sign(b, 0.4)])])

    def layer(depth):
        if depth == 0 or nb[0] >= maxb:
            return unit()
        args, seen = [], set()
        for _ in range(rng.choice([2, 2, 3])):
            if nb[0] >= maxb:
                break
            a = layer(depth - 1 if rng.random() < 0.7 else 0)
            if a[2] not in seen:
                seen.add(a[2])
                args.append(a)
        if not args:
            return None
        if len(args) == 1:
            return args[0]
        args = [x for x in args if x]
        if len(args) >= 3 and rng.random() < 0.25:
            return add("atleast", [sign(a, 0.1) for a in args], 2)
        return add(rng.choice(["and", "or", "and", "or", "and", "or", "xor"] if len(args) == 2 else ["and", "or"]), [sign(a, 0.08) for a in args])

    a = layer(rng.choice([1, 2, 2, 3]))
    if a[1] == "b" or a[0]:
        a = add("not" if a[0] else "null", [(False, a[1], a[2])])
    return t
