import copy
import core, rich, options, ft_common
from rich import N
from report import Report


class Keyed:
    """A report with every name replaced by the key of the element in the abstract model."""

    def __init__(self, ctx, data, m, sp, what):
        self.rep = Report(data)
        self.ctx, self.what = ctx, what
        self.events = sp.ids()
        self.seq = {sp.names[("sequence", s)]: s for l in getattr(m, "seqs", {}).values() for s in l}
        self.ie = {sp.names[k]: k[1] for k in m.items if k[0] == "initiating-event"}
        self.al = {sp.names[k]: k[1] for k in m.items if k[0] == "alignment"}
        self.groups = {}
        for k, it in m.items.items():
            if k[0] == "CCF-group":
                self.groups[sp.id(*k)] = (k[1], {sp.names[("basic-event", c.at["name"].key)]: c.at["name"].key for c in it.node.ch[0].ch})
        self.out = {}
        for r in self.rep.results if self.rep.results is not None else []:
            self.section(r)

    def look(self, d, n):
        if n not in d:
            self.ctx.fail("unknown-name", "%s: reported name %r is not in the model" % (self.what, n), stop=True)
        return d[n]

    def event(self, e):
        if e.tag == "basic-event":
            return self.look(self.events, e.get("name"))
        g, mem = self.look(self.groups, e.get("ccf-group"))
        return (g,) + tuple(sorted(self.look(mem, x.get("name")) for x in e))

    def lit(self, e):
        return ("~", self.event(e[0])) if e.tag == "not" else ("", self.event(e))

    def section(self, r):
        if r.tag == "initiating-event":
            name = ("I", self.look(self.ie, r.get("name")))
        elif r.get("initiating-event"):
            name = ("S", self.look(self.ie, r.get("initiating-event")), self.look(self.seq, r.get("name")))
        else:
            name = ("G", self.look(self.events, r.get("name")))
        key = (r.tag, name, self.al[r.get("alignment")] if r.get("alignment") else None, r.get("phase"))
        d = {k: v for k, v in r.attrib.items() if k not in ("name", "initiating-event", "alignment", "phase")}
        if r.tag == "sum-of-products":
            for p in r:
                l = tuple(sorted((self.lit(x) for x in p), key=repr))
                for k, v in p.attrib.items():
                    if (l, k) in d:
                        self.ctx.fail("duplicate-product", "%s: %s" % (self.what, l))
                    d[(l, k)] = v
        elif r.tag == "initiating-event":
            for x in r:
                d[self.look(self.seq, x.get("name"))] = x.get("value")
        elif r.tag == "importance":
            for x in r:
                for k, v in x.attrib.items():
                    if k not in ("name", "ccf-group"):
                        d[(self.event(x), k)] = v
        else:
            def walk(el, path):
                for i, c in enumerate(el):
                    for k, v in c.attrib.items():
                        d[path + ((c.tag, i), k)] = v
                    walk(c, path + ((c.tag, i),))
            walk(r, ())
        if key in self.out:
            self.ctx.fail("duplicate-section", "%s: %s" % (self.what, key))
        self.out[key] = d


def number(x):
    try:
        return float(x)
    except ValueError:
        return None


def noise(d, q):
    """The rounding error of an importance factor: differences of probabilities over the (tiny) total probability."""
    total = []
    for e in {k[0] for k in d if isinstance(k, tuple)}:
        try:
            total.append(abs(float(d[(e, "MIF")]) * float(d[(e, "probability")]) / float(d[(e, "CIF")])))
        except (KeyError, ValueError, ZeroDivisionError):
            pass
    total = min([t for t in total if t > 0] or [1e-6])
    return 1e-14 / total * (max(1, abs(float(d[q]))) ** 2 if q[-1] == "RRW" else 1)


def compare(a, b):
    """(kind, text) of the first difference."""
    if set(a) != set(b):
        return "sections", "%s against %s" % (sorted(map(str, set(a) - set(b)))[:3], sorted(map(str, set(b) - set(a)))[:3])
    for k in a:
        x, y = a[k], b[k]
        if set(x) != set(y):
            return k[0] + ":entries", "%s: %s against %s" % (k, sorted(map(str, set(x) - set(y)))[:4], sorted(map(str, set(y) - set(x)))[:4])
        for q in x:
            if x[q] == y[q]:
                continue
            u, v = number(x[q]), number(y[q])
            if u is None or v is None:
                return k[0] + ":text", "%s %s: %r against %r" % (k, q, x[q], y[q])
            if isinstance(q, tuple) and q[-1] == "RRW" and (max(abs(u), abs(v)) > 1e6 or min(abs(u), abs(v)) == 0):
                continue   # A difference of nearly equal numbers.
            tol = 2e-5 * max(abs(u), abs(v)) + 1e-13
            if isinstance(q, tuple) and q[-1] == "RRW":
                tol *= max(1, abs(u))
            if isinstance(q, tuple) and q[-1] in ("MIF", "CIF", "DIF", "RAW", "RRW"):
                tol += noise(x, q)
            if not abs(u - v) <= tol:
                return k[0] + ":values", "%s %s: %r against %r" % (k, q, x[q], y[q])
    return None


class Check(core.BaseCheck):
    ID = "C27"
    QUICK, THOROUGH = 1200, 20000
    RULE = ("random abstract models of every construct, each written down in three or more spellings: plain, and with renamed, shuffled, split over up to four files, moved into public and private "
            "components with shadowing names, full-path, local and public references, untyped events, reordered arguments and added unused elements; the exchange format's name resolution decides which references are "
            "equivalent; the reports, mapped back to the abstract elements, must be equal; non-trivial: a compared pair with at least one product or probability, distinct by the plain model")
    MIN = {"distinct": 800, "pairs": 2500, "private_refs": 1500, "multi_file": 800}
    ASSUMPTIONS = ["Monte Carlo results are compared only for models without deviates (the order of sampling follows the order of arguments)"]

    def extras(self, m, rng):
        """The same model with unused elements."""
        m2 = copy.copy(m)
        m2.items = dict(m.items)
        for i in range(rng.choice([1, 2, 4])):
            k = rng.choice(["basic-event", "house-event", "parameter"])
            node = {"basic-event": N("define-basic-event", {}, [rich.F(rng.random())]), "house-event": N("define-house-event", {}, [N("constant", {"value": "true"})]),
                    "parameter": N("define-parameter", {}, [rich.F(rng.random())])}[k]
            m2.items[(k, "U%d" % i)] = rich.Item(k, "U%d" % i, node, rng.choice(m.fts))
        return m2

    def case(self, ctx, rng, idx):
        unc = rng.random() < 0.3
        m = rich.Rich(rng, small=rng.random() < 0.6, deviates=not unc, nft=rng.choice([1, 1, 2, 3]))
        o = options.Options(rng, uncertainty=unc)
        if not m.coherent and o.algorithm in ("mocus", "zbdd") and len(m.basics) > 9:
            o.algorithm, o.prime = "bdd", False
        if o.prime and (len(m.basics) > 12 or any(k[0] == "substitution" for k in m.items)):
            o.prime = False
        cli = o.cli()
        base = None
        for k in range(rng.choice([3, 3, 4])):
            mm = m
            if not k:
                sp, docs = rich.spell(m, rng, plain=True)
            else:
                mm = self.extras(m, rng) if rng.random() < 0.3 else m
                sp, docs = rich.spell(mm, rng, rename=rng.random() < 0.8, nfiles=rng.choice([1, 1, 2, 3, 4]), shuffle=rng.random() < 0.85, comps=rng.random() < 0.8, private=rng.random() < 0.8)
            files = [ctx.write("s%d_%d.xml" % (k, i), d) for i, d in enumerate(docs)]
            if len(files) > 1:
                ctx.count("multi_file")
                if rng.random() < 0.5:
                    rng.shuffle(files)
            ctx.count("private_refs", sum(1 for x in sp.scope if not sp.public(x)))
            ctx.count("shadowed_names", len(sp.scope) - len({sp.names[x] for x in sp.scope}))
            out = ctx.path("o%d.xml" % k)
            r = ctx.scram(cli + ["-o", out] + files, timeout=30, slow_ok=True)
            if r.timeout:
                return
            ft_common.load(ctx, r, out, key="rejected" if not k else "spelling-rejected")
            got = Keyed(ctx, core.rd(out), mm, sp, "spelling %d" % k).out
            if not k:
                base, plain = got, docs
                continue
            ctx.count("pairs")
            d = compare(base, got)
            if d:
                ctx.fail("differs:" + d[0], "spelling %d, args %s: %s" % (k, cli, d[1]))
        if any(k[0] == "sum-of-products" and d.get("products") != "0" or k[0] in ("initiating-event",) for k, d in base.items()):
            ctx.sig(str(cli), plain)
        ctx.sample("\n".join(docs)[:1500])
