"""Parser of the XML report (the observation point of most monitors)."""
import xml.etree.ElementTree as ET


class Product:
    __slots__ = ("lits", "order", "p", "contrib")


def lit_of(el):
    neg = False
    if el.tag == "not":
        neg = True
        el = el[0]
    if el.tag == "basic-event":
        return (neg, el.get("name"))
    assert el.tag == "ccf-event", el.tag
    return (neg, "[" + " ".join(m.get("name") for m in el) + "]")


def fl(x):
    return None if x is None else float(x)


class SOP:
    pass


class Report:
    def __init__(self, data):
        root = self.root = ET.fromstring(data)
        self.info = root.find("information")
        self.results = root.find("results")
        self.sops, self.importance, self.measures, self.curves, self.sils, self.ies = [], [], [], [], [], []
        if self.results is None:
            return
        for r in self.results:
            key = ident(r)
            if r.tag == "sum-of-products":
                s = SOP()
                s.key, s.el = key, r
                s.warning = r.get("warning")
                s.basic_events = int(r.get("basic-events"))
                s.nproducts = int(r.get("products"))
                s.p = fl(r.get("probability"))
                s.dist = r.get("distribution")
                s.products = []
                for p in r:
                    o = Product()
                    o.lits = [lit_of(e) for e in p]
                    o.order = int(p.get("order"))
                    o.p, o.contrib = fl(p.get("probability")), fl(p.get("contribution"))
                    s.products.append(o)
                self.sops.append(s)
            elif r.tag == "importance":
                evs = []
                for e in r:
                    evs.append((lit_of_imp(e), {k: float(e.get(k)) for k in ("occurrence", "probability", "MIF", "CIF", "DIF", "RAW", "RRW")}))
                self.importance.append((key, r, evs))
            elif r.tag == "measure":
                self.measures.append((key, r))
            elif r.tag == "curve":
                self.curves.append((key, r, [(float(p.get("X")), float(p.get("Y"))) for p in r]))
            elif r.tag == "safety-integrity-levels":
                self.sils.append((key, r))
            elif r.tag == "initiating-event":
                self.ies.append((key, r, [(s.get("name"), float(s.get("value"))) for s in r]))

    def sop(self, name):
        m = [s for s in self.sops if s.key[0] == name]
        assert len(m) == 1, (name, [s.key for s in self.sops])
        return m[0]

    def warnings(self):
        return [w.text for w in self.info.findall("warning")]


def lit_of_imp(el):
    if el.tag == "basic-event":
        return el.get("name")
    return "[" + " ".join(m.get("name") for m in el) + "]"


def ident(r):
    return (r.get("name"), r.get("initiating-event"), r.get("alignment"), r.get("phase"))


def flatten(rep):
    """Every reported result as {section key: {detail key: text}}; products and importance entries are keyed by their events."""
    out = {}
    for r in rep.results if rep.results is not None else []:
        key = (r.tag,) + ident(r)
        d = {}
        for k, v in r.attrib.items():
            if k not in ("name", "initiating-event", "alignment", "phase"):
                d[k] = v
        if r.tag == "sum-of-products":
            for p in r:
                lits = tuple(sorted(lit_of(e) for e in p))
                for k, v in p.attrib.items():
                    d[(lits, k)] = v
        elif r.tag == "initiating-event":
            for e in r:
                d[("sequence", e.get("name"), "value")] = e.get("value")
        elif r.tag == "importance":
            for e in r:
                n = lit_of_imp(e)
                for k, v in e.attrib.items():
                    if k != "name":
                        d[(n, k)] = v
        else:
            def walk(el, path):
                for i, c in enumerate(el):
                    q = path + ((c.tag, i),)
                    for k, v in c.attrib.items():
                        d[q + (k,)] = v
                    walk(c, q)
            walk(r, ())
        while key in out:
            key = key + ("again",)
        out[key] = d
    return out


def diff(a, b, rel=2e-5, abs_=1e-300, ignore=None):
    """First difference of two flattened reports, or None."""
    if set(a) != set(b):
        return "sections %s against %s" % (sorted(map(str, set(a) - set(b)))[:3], sorted(map(str, set(b) - set(a)))[:3])
    for k in a:
        x, y = a[k], b[k]
        if set(x) != set(y):
            return "%s: entries %s against %s" % (k, sorted(map(str, set(x) - set(y)))[:3], sorted(map(str, set(y) - set(x)))[:3])
        for q in x:
            if x[q] == y[q] or ignore and ignore(k, q, x[q], y[q]):
                continue
            try:
                u, v = float(x[q]), float(y[q])
            except ValueError:
                return "%s %s: %r against %r" % (k, q, x[q], y[q])
            if not (abs(u - v) <= rel * max(abs(u), abs(v)) + abs_):
                return "%s %s: %r against %r" % (k, q, x[q], y[q])
    return None
