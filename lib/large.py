"""Large structured fault trees (generated, bundled, mutated) and the client of harness/engine.cc."""
import os, subprocess, xml.etree.ElementTree as ET
import mef
from mef import Gate, Tree


def pos(kind, name):
    return (False, kind, name)


class Builder:
    def __init__(self, rng, coherent):
        self.rng, self.coherent, self.t = rng, coherent, Tree("large")
        self.nb = self.ng = 0

    def basic(self):
        r = self.rng.random()
        p = self.rng.uniform(0.01, 0.5) if r < .6 else 10 ** self.rng.uniform(-6, -1) if r < .9 else self.rng.choice([0.5, 0.9, 0.99])
        self.nb += 1
        n = "e%d" % self.nb
        self.t.basics[n] = float("%.6g" % p)
        return pos("b", n)

    def gate(self, op, args, k=None, k2=None):
        """A gate over distinct arguments with a legal arity, or the argument itself."""
        seen, u = set(), []
        for a in args:
            if a[1:] not in seen:
                seen.add(a[1:])
                u.append(a)
        if op == "not":
            u = u[:1]
        elif op in ("xor", "iff", "imply"):
            if len(u) < 2:
                return u[0]
            u = u[:2]
        elif op == "atleast":
            if len(u) <= k or k < 2:
                op, k = ("and", None) if len(u) <= (k or 0) else ("or", None)
        if op in ("and", "or", "nand", "nor") and len(u) < 2:
            if op in ("and", "or"):
                return u[0]
            op = "not"
        self.ng += 1
        n = "g%d" % self.ng
        self.t.gates[n] = Gate(op, u, k, k2)
        return pos("g", n)

    def neg(self, a):
        return (not a[0],) + a[1:]

    # --- building blocks: each takes a supplier of leaves
    def any(self, leaf, depth):
        if depth <= 0:
            return leaf()
        names = ["series", "vote", "bridge", "shared", "chain", "factor", "dup", "ladder", "star"]
        if not self.coherent:
            names += ["switch", "parity", "guard", "negated", "exclusive"]
        return getattr(self, self.rng.choice(names))(leaf, depth - 1)

    def many(self, leaf, depth, lo, hi):
        return [self.any(leaf, depth - (self.rng.random() < .4)) for _ in range(self.rng.randint(lo, hi))]

    def series(self, leaf, d):
        return self.gate(self.rng.choice(["and", "or"]), self.many(leaf, d, 2, 5))

    def star(self, leaf, d):
        op = self.rng.choice(["and", "or"])
        other = "or" if op == "and" else "and"
        hub = self.any(leaf, d)
        return self.gate(op, [self.gate(other, [hub, x]) for x in self.many(leaf, d, 2, 4)])

    def vote(self, leaf, d):
        a = self.many(leaf, d, 3, 6)
        return self.gate("atleast", a, self.rng.randint(2, max(2, len(a) - 1)))

    def bridge(self, leaf, d):
        a, b, c, e, x = (self.any(leaf, d) for _ in range(5))
        f = [[a, b], [c, e], [a, x, e], [c, x, b]]
        if self.rng.random() < .5:
            return self.gate("or", [self.gate("and", s) for s in f])
        return self.gate("and", [self.gate("or", s) for s in f])

    def shared(self, leaf, d):
        """Redundant trains over common support systems."""
        sup = [self.any(leaf, d) for _ in range(self.rng.randint(1, 3))]
        trains = []
        for _ in range(self.rng.randint(2, 4)):
            trains.append(self.gate("or", [self.any(leaf, d), self.rng.choice(sup)] + ([self.rng.choice(sup)] if self.rng.random() < .4 else [])))
        return self.gate("atleast", trains, 2) if self.rng.random() < .4 and len(trains) > 2 else self.gate("and", trains)

    def chain(self, leaf, d):
        x = self.any(leaf, d)
        for i in range(self.rng.randint(3, 10)):
            op = ["and", "or"][i % 2] if self.rng.random() < .8 else self.rng.choice(["and", "or"])
            x = self.gate(op, [x, leaf()] + ([leaf()] if self.rng.random() < .3 else []))
        return x

    def factor(self, leaf, d):
        """Common arguments across siblings (merging, factoring, distributivity)."""
        op = self.rng.choice(["and", "or"])
        other = "or" if op == "and" else "and"
        com = [leaf() for _ in range(self.rng.randint(1, 3))]
        return self.gate(op, [self.gate(other, self.rng.sample(com, self.rng.randint(1, len(com))) + self.many(leaf, d - 1, 1, 2)) for _ in range(self.rng.randint(2, 5))])

    def dup(self, leaf, d):
        """The same function defined twice."""
        args = self.many(leaf, d, 2, 4)
        a = self.gate("and", args)
        b = self.gate("and", args[::-1])
        return self.gate("or", [self.gate("and", [a, leaf()]), self.gate("and", [b, leaf()])])

    def ladder(self, leaf, d):
        """Boolean constraints between far nodes: a common node as ancestor and descendant."""
        c = self.any(leaf, d)
        x = self.gate("or", [self.gate("and", [c, leaf()]), leaf()])
        for _ in range(self.rng.randint(0, 2)):
            x = self.gate(self.rng.choice(["and", "or"]), [x, leaf()])
        return self.gate(self.rng.choice(["and", "or"]), [c, x, leaf()])

    def switch(self, leaf, d):
        c = leaf()
        return self.gate("or", [self.gate("and", [c, self.any(leaf, d)]), self.gate("and", [self.neg(c), self.any(leaf, d)])])

    def parity(self, leaf, d):
        x = self.any(leaf, d)
        for _ in range(self.rng.randint(1, 4)):
            x = self.gate(self.rng.choice(["xor", "iff"]), [x, leaf()])
        return x

    def guard(self, leaf, d):
        return self.gate("and", [self.any(leaf, d), self.neg(self.any(leaf, max(0, d - 1)))])

    def negated(self, leaf, d):
        return self.neg(self.gate(self.rng.choice(["nand", "nor", "and", "or"]), self.many(leaf, d, 2, 4)))

    def exclusive(self, leaf, d):
        a = self.many(leaf, d, 2, 5)
        names = {x[1:] for x in a}
        if len(names) < 2:
            return a[0]
        lo = self.rng.randint(0, len(names))
        return self.gate("cardinality", a, lo, self.rng.randint(max(lo, 1), len(names)))


def generate(rng, coherent, size):
    """A tree whose root uses about `size` events; leaves are reused with a random probability."""
    b = Builder(rng, coherent)
    reuse = rng.choice([0, .05, .15, .3])
    subs = []

    def leaf():
        r = rng.random()
        if b.nb >= size or b.nb and r < reuse:
            ks = list(b.t.basics)
            near = rng.random() < .7
            a = pos("b", rng.choice(ks[-12:] if near else ks))
        elif subs and r < reuse + .04:
            a = rng.choice(subs)
        elif r > .985:
            n = "h%d" % (len(b.t.houses) + 1)
            b.t.houses[n] = rng.random() < .4
            a = pos("h", n)
        else:
            a = b.basic()
        if not coherent and rng.random() < .08:
            a = b.neg(a)
        return a
    parts = []
    for _ in range(400):
        if b.nb >= size:
            break
        p = b.any(leaf, rng.choice([1, 2, 2, 3]))
        if p[1] == "g":
            subs.append(p)
        parts.append(p)
    ops = ["and", "or", "or"]
    while len(parts) > 1:
        rng.shuffle(parts)
        k = rng.randint(2, 4)
        grp, parts = parts[:k], parts[k:]
        if len(grp) > 2 and rng.random() < .25:
            parts.append(b.gate("atleast", grp, 2))
        else:
            parts.append(b.gate(rng.choice(ops), grp))
    root = parts[0]
    if root[1] != "g" or root[0]:
        root = b.gate("and", [root, b.basic()])
    b.t.root = root[2]
    prune(b.t)
    return b.t


def prune(t):
    """Keeps what the root reaches."""
    keep, st = set(), [t.root]
    while st:
        g = st.pop()
        if g in keep:
            continue
        keep.add(g)
        st += [a[2] for a in t.gates[g].args if a[1] == "g"]
    t.gates = {g: q for g, q in t.gates.items() if g in keep}
    used = {a[2] for q in t.gates.values() for a in q.args if a[1] in "bh"}
    t.basics = {k: v for k, v in t.basics.items() if k in used}
    t.houses = {k: v for k, v in t.houses.items() if k in used}


def load(paths):
    """A bundled model as a Tree, or None when it is outside the plain fault-tree subset."""
    t = Tree("bundled")
    for p in paths:
        root = ET.parse(p).getroot()
        for e in root.iter():
            if e.tag == "define-basic-event":
                f = e.find("float")
                t.basics[e.get("name")] = float(f.get("value")) if f is not None else None
            elif e.tag == "define-house-event":
                c = e.find("constant")
                t.houses[e.get("name")] = c is not None and c.get("value") == "true"
            elif e.tag in ("define-CCF-group", "define-parameter", "define-component", "define-event-tree", "include"):
                return None
    count = [0]

    def arg(e, gates, neg=False):
        if e.tag == "not" and len(e) == 1:
            return arg(e[0], gates, not neg)
        if e.tag in ("gate", "basic-event", "house-event", "event"):
            n = e.get("name")
            if e.tag == "event":
                kind = "g" if n in names else "h" if n in t.houses else "b"
            else:
                kind = {"gate": "g", "basic-event": "b", "house-event": "h"}[e.tag]
            if kind == "b":
                t.basics.setdefault(n, None)
            return (neg, kind, n)
        if e.tag == "constant":
            return (neg, "c", e.get("value") == "true")
        count[0] += 1
        n = "nested-%d" % count[0]
        t.gates[n] = formula(e)
        return (neg, "g", n)

    def formula(e):
        if e.tag in ("and", "or", "nand", "nor", "xor", "iff", "imply", "atleast", "cardinality"):
            return Gate(e.tag, [arg(x, t.gates) for x in e], int(e.get("min")) if e.get("min") else None, int(e.get("max")) if e.get("max") else None)
        return Gate("null", [arg(e, t.gates)])
    docs = [ET.parse(p).getroot() for p in paths]
    names = {g.get("name") for d in docs for g in d.iter("define-gate")}
    for d in docs:
        for g in d.iter("define-gate"):
            body = [x for x in g if x.tag not in ("label", "attributes")]
            t.gates[g.get("name")] = formula(body[-1])
    tops = t.tops()
    if not tops:
        return None
    t.root = tops[0]
    prune(t)
    for b in t.basics:
        if t.basics[b] is None:
            t.basics[b] = None
    return t


def mutate(rng, t, n):
    """Realistic edits of a bundled model that keep it a legal acyclic tree."""
    order = {}

    def depth(g):
        st = [(g, 0)]
        while st:
            x, ph = st.pop()
            if x in order:
                continue
            ch = [a[2] for a in t.gates[x].args if a[1] == "g"]
            if ph:
                order[x] = 1 + max([order[c] for c in ch], default=0)
            else:
                st.append((x, 1))
                st += [(c, 0) for c in ch if c not in order]
    depth(t.root)
    gs = list(t.gates)
    for _ in range(n):
        g = rng.choice(gs)
        q = t.gates[g]
        r = rng.random()
        if r < .3 and q.op in ("and", "or"):
            q.op = "or" if q.op == "and" else "and"
        elif r < .5 and q.op in ("and", "or") and len(q.args) >= 3:
            q.op, q.k = "atleast", rng.randint(2, len(q.args) - 1)
        elif r < .75 and len(q.args) > 2 and q.op in ("and", "or", "atleast"):
            if q.op != "atleast" or q.k < len(q.args) - 1:
                q.args.pop(rng.randrange(len(q.args)))
        elif q.op in ("and", "or", "atleast"):
            have = {a[1:] for a in q.args}
            if rng.random() < .5:
                a = pos("b", rng.choice(list(t.basics)))
            else:
                low = [x for x in gs if order[x] < order[g]]
                if not low:
                    continue
                a = pos("g", rng.choice(low))
            if a[1:] not in have:
                q.args.append(a)
    prune(t)


class Overflow(Exception):
    pass


def reference(env, t, queries, maxnodes=2000000, timeout=60):
    """queries: [(gate, limit, prime or -1, maxlist, [basic events])] -> [(p, {event: mif}, total, limit, listed count, sets)]"""
    vs = list(t.basics)
    idx = {v: i for i, v in enumerate(vs)}
    gid = {g: len(vs) + i for i, g in enumerate(t.gates)}
    out = ["%d %d %d %d" % (len(vs), len(t.gates), len(queries), maxnodes)]
    out.append(" ".join("%r" % (t.basics[v] if t.basics[v] is not None else 0.0) for v in vs))
    for g, q in t.gates.items():
        a = []
        for neg, kind, name in q.args:
            if kind == "b":
                x = idx[name]
            elif kind == "g":
                x = gid[name]
            else:
                x = -2 if (t.houses[name] if kind == "h" else name) else -1
            a.append("%s%d" % ("-" if neg else "+", x))
        out.append("%s %d %d %d %s" % (q.op, q.k or 0, q.k2 or 0, len(a), " ".join(a)))
    for gate, limit, prime, maxlist, mif in queries:
        out.append("%d %d %d %d %d %s" % (gid[gate] - len(vs), limit, prime, maxlist, len(mif), " ".join(str(idx[x]) for x in mif)))
    # Beyond its own budgets the reference has no opinion.
    try:
        r = subprocess.run(["bash", "-c", "ulimit -s 1000000; ulimit -v 6000000; exec " + env["engine"]], input="\n".join(out).encode() + b"\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Overflow()
    txt = r.stdout.decode().splitlines()
    if "OVERFLOW" in txt or b"bad_alloc" in r.stderr:
        raise Overflow()
    if r.returncode:
        raise RuntimeError("reference engine failed: %d %s %s" % (r.returncode, txt[:2], r.stderr[-300:]))
    res, cur = [], None
    for l in txt:
        w = l.split()
        if w[0] == "TOP":
            cur = [float(w[3]), {}, None, None, None, set()]
        elif w[0] == "MIF":
            cur[1][vs[int(w[1])]] = float(w[2])
        elif w[0] == "COUNT":
            cur[2:5] = [float(w[1]), int(w[3]), float(w[4])]
        elif w[0] == "S":
            cur[5].add(frozenset((x[0] == "-", vs[int(x[1:])]) for x in w[1:]))
        elif w[0] == "END":
            res.append(cur)
    assert len(res) == len(queries)
    return res


def compile_engine(build):
    src = os.path.join(build.VERIF, "harness", "engine.cc")
    out = os.path.join(build.BUILD, "engine")
    lk = build.lock()
    if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
        build.run(["clang++", "-O2", "-std=c++17", "-o", out + ".tmp", src])
        os.replace(out + ".tmp", out)
    lk.close()
    return out
