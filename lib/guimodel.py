"""Documents the GUI can open: fault trees with one top gate, flat formulas, plain expressions."""
from xml.sax.saxutils import quoteattr, escape

NAMES = ["pump", "valve", "Tank", "sensor-A", "x", "Y_1", "ev\u00e9", "\u0438\u043c\u044f", "bus-bar", "relay", "Motor", "k9", "a_b-c_d", "MCC"]
LABELS = ["a label", "The pump of train A", "\u00e9\u00e0 \u2227", "<&>\"'", "%1 %2", "x"]


def name(rng, used):
    while True:
        n = rng.choice(NAMES) + (str(rng.randrange(40)) if rng.random() < 0.8 else "")
        if n not in used and n.lower() not in {u.lower() for u in used}:
            used.add(n)
            return n


class Doc:
    pass


def gen(rng, trees=None, basics=None, houses=None, gates=None, defs_in_tree=0.0, no_expr=0.15, mission_exprs=0.0, attrs=True):
    d = Doc()
    used = set()
    d.name = rng.choice([None, None, "model", "M-1"])
    d.label = rng.choice([None, None, "the model"])
    nb = rng.randint(2, 10) if basics is None else basics
    nh = rng.randint(0, 3) if houses is None else houses
    nt = rng.choice([0, 1, 1, 1, 2, 3]) if trees is None else trees

    def head():
        a = []
        if attrs and rng.random() < 0.2:
            a.append(("vendor", rng.choice(["acme", "x & y"]), rng.choice([None, "string"])))
        return {"label": rng.choice(LABELS) if rng.random() < 0.4 else None, "attrs": a}

    d.basic, d.house, d.trees = [], [], []
    for _ in range(nb):
        e = dict(head(), name=name(rng, used), expr=None, where=None)
        r = rng.random()
        if attrs and r < 0.3:
            e["attrs"].append(("flavor", rng.choice(["undeveloped", "undeveloped", "basic", "conditional"]), rng.choice([None, None, "t"])))
            rng.shuffle(e["attrs"])
        if rng.random() >= no_expr:
            r = rng.random()
            if r < 0.6:
                e["expr"] = ("float", rng.choice([repr(rng.random()), "%.3g" % rng.random(), "1e-9", "0", "1", "0.1", "1.23456789e-3", "5e-324"]))
            elif r < 0.65:
                e["expr"] = ("int", rng.choice(["0", "1"]))
            elif r < 0.7:
                e["expr"] = ("bool", rng.choice(["true", "false"]))
            elif r < 1 - mission_exprs:
                e["expr"] = ("exponential", ("float", rng.choice(["1e-5", "2.718281828e-4", "0", repr(rng.random())])), ("system-mission-time",))
            else:
                e["expr"] = rng.choice([("exponential", ("float", "1e-4"), ("float", "24")), ("exponential", ("int", "1"), ("exponential", ("float", "0.1"), ("system-mission-time",))),
                                        ("exponential", ("exponential", ("float", "1e-4"), ("system-mission-time",)), ("system-mission-time",))])
        d.basic.append(e)
    for _ in range(nh):
        d.house.append(dict(head(), name=name(rng, used), state=rng.choice([None, "true", "false"]), where=None))
    leaves = [("basic-event", e["name"]) for e in d.basic] + [("house-event", e["name"]) for e in d.house]
    earlier = []
    for _ in range(nt):
        t = dict(head(), name=name(rng, used), gates=[])
        n = rng.randint(1, 6) if gates is None else gates
        own = [name(rng, used) for _ in range(n)]
        for i, g in enumerate(own):
            pool = list(leaves) + [("gate", x) for x in own[i + 1:]] + [("gate", x) for x in earlier if rng.random() < 0.3]
            must = [own[j] for j in range(i + 1, n) if parent_of(rng, j, i, own, t)]
            t["gates"].append(dict(head(), name=g, formula=formula(rng, pool, [("gate", m) for m in must])))
        d.trees.append(t)
        earlier += own
    for e in d.basic + d.house:
        if d.trees and rng.random() < defs_in_tree:
            e["where"] = rng.choice(d.trees)["name"]
    rng.shuffle(d.trees)
    return d


def parent_of(rng, j, i, own, t):
    """Gate j hangs below gate i: decided once per j so that only the first gate is a top one."""
    m = t.setdefault("parent", {})
    if j not in m:
        m[j] = rng.randrange(j)
    return m[j] == i


def formula(rng, pool, must):
    rest = [p for p in pool if p not in must]
    rng.shuffle(rest)
    n = len(must) + rng.randint(0, 3)
    args = (must + rest)[:max(n, len(must), 1)]
    rng.shuffle(args)
    ops = {1: ["not", "null"], 2: ["and", "or", "nand", "nor", "xor", "and", "or"]}.get(len(args), ["and", "or", "nand", "nor", "atleast", "atleast"])
    op = rng.choice(ops)
    return (op, rng.randint(2, len(args) - 1) if op == "atleast" else None, args)


def expr(x):
    if x[0] == "system-mission-time":
        return "<system-mission-time/>"
    if x[0] == "exponential":
        return "<exponential>%s%s</exponential>" % (expr(x[1]), expr(x[2]))
    return '<%s value="%s"/>' % x


def head_xml(e):
    s = ""
    if e["label"]:
        s += "<label>%s</label>" % escape(e["label"])
    if e["attrs"]:
        s += "<attributes>%s</attributes>" % "".join(
            "<attribute name=%s value=%s%s/>" % (quoteattr(n), quoteattr(v), " type=%s" % quoteattr(t) if t else "") for n, v, t in e["attrs"])
    return s


def xml(d):
    def basic(e):
        return "<define-basic-event name=%s>%s%s</define-basic-event>" % (quoteattr(e["name"]), head_xml(e), expr(e["expr"]) if e["expr"] else "")

    def house(e):
        return "<define-house-event name=%s>%s%s</define-house-event>" % (quoteattr(e["name"]), head_xml(e), '<constant value="%s"/>' % e["state"] if e["state"] else "")

    s = ['<?xml version="1.0" encoding="UTF-8"?>\n<opsa-mef%s>' % (" name=%s" % quoteattr(d.name) if d.name else "")]
    if d.label:
        s.append("<label>%s</label>" % escape(d.label))
    for t in d.trees:
        s.append("<define-fault-tree name=%s>%s" % (quoteattr(t["name"]), head_xml(t)))
        for g in t["gates"]:
            op, k, args = g["formula"]
            a = "".join("<%s name=%s/>" % (kind, quoteattr(n)) for kind, n in args)
            f = a if op == "null" else "<%s%s>%s</%s>" % (op, ' min="%d"' % k if k else "", a, op)
            s.append("<define-gate name=%s>%s%s</define-gate>" % (quoteattr(g["name"]), head_xml(g), f))
        s += [basic(e) for e in d.basic if e["where"] == t["name"]] + [house(e) for e in d.house if e["where"] == t["name"]]
        s.append("</define-fault-tree>")
    s.append("<model-data>")
    s += [basic(e) for e in d.basic if not e["where"]] + [house(e) for e in d.house if not e["where"]]
    s.append("</model-data></opsa-mef>")
    return "\n".join(s)
