"""Small independent helpers of the demonstrations: random trees, brute force, running scram."""
import itertools, os, random, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

SCRAM = "/repo/_install/bin/scram"
TMP = tempfile.mkdtemp(prefix="demo_")
import atexit
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))


def run(files, *args, timeout=60, out=True):
    """-> (exit status, report root or None, stderr)"""
    rep = os.path.join(TMP, "report.xml")
    if os.path.exists(rep):
        os.unlink(rep)
    paths = []
    for i, f in enumerate(files if isinstance(files, (list, tuple)) else [files]):
        if f.lstrip().startswith("<"):
            p = os.path.join(TMP, "in%d.xml" % i)
            with open(p, "w") as o:
                o.write(f)
            paths.append(p)
        else:
            paths.append(f)
    try:
        r = subprocess.run([SCRAM] + paths + list(args) + (["-o", rep] if out else []), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return -99, None, "timeout"
    root = ET.parse(rep).getroot() if r.returncode == 0 and os.path.exists(rep) else None
    return r.returncode, root, r.stderr.decode(errors="replace")


def products(root, name=None):
    """Products of the (named) sum of products as a set of frozensets; complements carry '~'."""
    for s in root.iter("sum-of-products"):
        if name is None or s.get("name") == name:
            res = []
            for p in s.findall("product"):
                lits = []
                for n in p:
                    if n.tag == "not":
                        lits.append("~" + n[0].get("name"))
                    else:
                        lits.append(n.get("name") or ("[" + " ".join(sorted(x.get("name") for x in n)) + "]"))
                res.append(frozenset(lits))
            return res
    return None


def prob(root, name=None):
    for s in root.iter("sum-of-products"):
        if name is None or s.get("name") == name:
            return float(s.get("probability"))


OPS = {
    "and": lambda a, k: all(a), "or": lambda a, k: any(a), "nand": lambda a, k: not all(a), "nor": lambda a, k: not any(a),
    "xor": lambda a, k: a[0] != a[1], "iff": lambda a, k: a[0] == a[1], "imply": lambda a, k: (not a[0]) or a[1],
    "not": lambda a, k: not a[0], "null": lambda a, k: a[0], "atleast": lambda a, k: sum(a) >= k, "cardinality": lambda a, k: k[0] <= sum(a) <= k[1]}


class Tree:
    """gates: name -> (op, k, [(complement, kind, name)])."""

    def __init__(self, rng, nvars=5, ngates=5, coherent=False, houses=0, ops=None, complement=0.15):
        self.vars = ["e%d" % i for i in range(nvars)]
        self.p = {v: round(rng.uniform(0.05, 0.6), 3) for v in self.vars}
        self.houses = {"h%d" % i: rng.random() < .5 for i in range(houses)}
        ops = ops or (["and", "or", "and", "or", "atleast", "null"] if coherent else
                      ["and", "or", "and", "or", "atleast", "nand", "nor", "xor", "not", "iff", "imply", "null"])
        self.gates, names = {}, []
        for i in reversed(range(ngates)):
            name = "g%d" % i
            op = rng.choice(ops)
            pool = [("basic-event", v) for v in self.vars] + [("gate", g) for g in names] * 2 + [("house-event", h) for h in self.houses]
            n = {"not": 1, "null": 1, "xor": 2, "iff": 2, "imply": 2}.get(op) or rng.randint(3 if op in ("atleast", "cardinality") else 2, 4)
            args, seen = [], set()
            for kind, a in rng.sample(pool, len(pool)):
                if a in seen or len(args) >= n:
                    continue
                seen.add(a)
                args.append((not coherent and op not in ("not", "null") and rng.random() < complement, kind, a))
            if i == 0:  # the root reaches every gate not used yet
                used = {a for g in self.gates.values() for _, _, a in g[2]}
                args = [(False, "gate", g) for g in names if g not in used] + [a for a in args if a[1] != "gate"]
                op = "or" if rng.random() < .5 else "and"
                if len(args) < 2:
                    args += [(False, "basic-event", v) for v in self.vars if ("basic-event", v) not in [(k, x) for _, k, x in args]][:2]
            k = None
            if op == "atleast":
                if len(args) < 3:
                    op = "or"
                else:
                    k = rng.randint(2, len(args) - 1)
            if op == "cardinality":
                k = sorted([rng.randint(0, len(args)), rng.randint(0, len(args))])
            self.gates[name] = (op, k, args)
            names.append(name)
        self.top = "g0"

    def ev(self, name, x, memo):
        if name not in memo:
            op, k, args = self.gates[name]
            vals = []
            for c, kind, a in args:
                v = x[a] if kind == "basic-event" else self.houses[a] if kind == "house-event" else self.ev(a, x, memo)
                vals.append(v != c)
            memo[name] = OPS[op](vals, k)
        return memo[name]

    def f(self, x):
        return self.ev(self.top, x, {})

    def table(self):
        for bits in itertools.product([False, True], repeat=len(self.vars)):
            x = dict(zip(self.vars, bits))
            yield x, self.f(x)

    def mcs(self):
        sets = [frozenset(v for v in self.vars if x[v]) for x, y in self.table() if y]
        return {s for s in sets if not any(t < s for t in sets)}

    def primes(self):
        t = {tuple(x[v] for v in self.vars): y for x, y in self.table()}
        imps = []
        for spec in itertools.product([None, False, True], repeat=len(self.vars)):
            if all(y for b, y in t.items() if all(s is None or s == c for s, c in zip(spec, b))):
                imps.append(frozenset(("" if s else "~") + v for s, v in zip(spec, self.vars) if s is not None))
        return {s for s in imps if not any(o < s for o in imps)}

    def probability(self, p=None):
        p = p or self.p
        tot = 0.0
        for x, y in self.table():
            if y:
                w = 1.0
                for v in self.vars:
                    w *= p[v] if x[v] else 1 - p[v]
                tot += w
        return tot

    def mif(self, v):
        return self.probability(dict(self.p, **{v: 1.0})) - self.probability(dict(self.p, **{v: 0.0}))

    def xml(self, extra="", ft_extra=""):
        o = ['<?xml version="1.0"?>\n<opsa-mef><define-fault-tree name="ft">']
        for g in sorted(self.gates, key=lambda s: int(s[1:])):
            op, k, args = self.gates[g]
            body = "".join(("<not>%s</not>" if c else "%s") % ('<%s name="%s"/>' % (kind, a)) for c, kind, a in args)
            if op == "null":
                o.append('<define-gate name="%s">%s</define-gate>' % (g, body))
            else:
                at = ' min="%d"' % k if op == "atleast" else ' min="%d" max="%d"' % tuple(k) if op == "cardinality" else ""
                o.append('<define-gate name="%s"><%s%s>%s</%s></define-gate>' % (g, op, at, body, op))
        o.append(ft_extra + "</define-fault-tree><model-data>")
        for v in self.vars:
            o.append('<define-basic-event name="%s"><float value="%r"/></define-basic-event>' % (v, self.p[v]))
        for h, s in self.houses.items():
            o.append('<define-house-event name="%s"><constant value="%s"/></define-house-event>' % (h, "true" if s else "false"))
        o.append("</model-data>" + extra + "</opsa-mef>")
        return "\n".join(o)


def close(a, b, rel=1e-4, ab=1e-9):
    return abs(a - b) <= ab + rel * max(abs(a), abs(b))


def check(cond, msg):
    if not cond:
        print("DEMO FAILS:", msg)
        sys.exit(1)
