import copy, os, re, xml.etree.ElementTree as ET
import core, rich, options
from rich import N, Ref


def E(s):
    return ET.fromstring(s)


def fl(x):
    return '<float value="%s"/>' % x


T = "<system-mission-time/>"


def fn(tag, *a):
    return "<%s>%s</%s>" % (tag, "".join(x if x.startswith("<") else fl(x) for x in a), tag)


def hist(b0, *bins):
    return "<histogram>%s%s</histogram>" % (fl(b0), "".join("<bin>%s%s</bin>" % (fl(u), fl(w)) for u, w in bins))


PT = "periodic-test"
# Invalid wherever they stand: the domain of some argument is violated.
BAD_FN = {
    "exp-rate": fn("exponential", "-1e-3", T), "exp-time": fn("exponential", "1e-3", "-5"), "exp-rate-domain": fn("exponential", fn("uniform-deviate", "-1e-3", "1e-3"), T),
    "glm-gamma": fn("GLM", "1.2", "1e-3", "0.1", T), "glm-gamma-neg": fn("GLM", "-0.2", "1e-3", "0.1", T), "glm-lambda": fn("GLM", "0.1", "0", "0.1", T),
    "glm-mu": fn("GLM", "0.1", "1e-3", "-0.1", T), "glm-time": fn("GLM", "0.1", "1e-3", "0.1", "-1"),
    "glm-lambda-domain": fn("GLM", "0.1", fn("uniform-deviate", "0", "1e-3"), "0.1", T),
    "weibull-scale": fn("Weibull", "0", "2", "1", T), "weibull-shape": fn("Weibull", "100", "-2", "1", T), "weibull-t0": fn("Weibull", "100", "2", "-1", T),
    "weibull-time": fn("Weibull", "100", "2", "1", "-1"), "weibull-scale-domain": fn("Weibull", fn("uniform-deviate", "-1", "100"), "2", "1", T),
    "pt4-lambda": fn(PT, "0", "100", "10", T), "pt4-tau": fn(PT, "1e-3", "0", "10", T), "pt4-theta": fn(PT, "1e-3", "100", "-1", T), "pt4-time": fn(PT, "1e-3", "100", "10", "-1"),
    "pt5-mu": fn(PT, "1e-3", "-0.1", "100", "10", T), "pt5-lambda": fn(PT, "-1e-3", "0.1", "100", "10", T),
    "pt11-lambda-test": fn(PT, "1e-3", "-1e-3", "0.1", "100", "10", "0.1", "5", "true", "0.9", "0.1", T).replace(fl("true"), '<bool value="true"/>'),
    "pt11-gamma": fn(PT, "1e-3", "1e-3", "0.1", "100", "10", "1.1", "5", '<bool value="true"/>', "0.9", "0.1", T),
    "pt11-sigma": fn(PT, "1e-3", "1e-3", "0.1", "100", "10", "0.1", "5", '<bool value="true"/>', "-0.9", "0.1", T),
    "pt11-omega": fn(PT, "1e-3", "1e-3", "0.1", "100", "10", "0.1", "5", '<bool value="false"/>', "0.9", "2", T),
    "pt11-duration": fn(PT, "1e-3", "1e-3", "0.1", "100", "10", "0.1", "0", '<bool value="true"/>', "0.9", "0.1", T),
    "pt11-duration-tau": fn(PT, "1e-3", "1e-3", "0.1", "100", "10", "0.1", "101", '<bool value="true"/>', "0.9", "0.1", T),
    "pt-arity": fn(PT, "1e-3", "1e-3", "0.1", "100", "10", "0.1", T),
    "div-0": fn("div", "0.5", "0"), "div-0-third": fn("div", "0.5", "2", "0"), "div-domain": fn("div", "0.1", fn("uniform-deviate", "-1", "2")),
    "mod-0": fn("mod", "3", "0.5"), "mod-domain": fn("mod", "3", fn("uniform-deviate", "-2", "5")), "pow-0-0": fn("pow", "0", "0"), "pow-0-neg": fn("pow", "0", "-1"),
    "log-0": fn("log", "0"), "log-neg": fn("log", "-1"), "log10-0": fn("log10", "0"), "sqrt-neg": fn("sqrt", "-0.1"), "acos-2": fn("acos", "2"), "asin": fn("asin", "-1.5"),
    "uniform-eq": fn("uniform-deviate", "0.5", "0.5"), "uniform-rev": fn("uniform-deviate", "0.6", "0.4"), "normal-0": fn("normal-deviate", "0.5", "0"),
    "normal-neg": fn("normal-deviate", "0.5", "-1e-3"), "lognormal-ef": fn("lognormal-deviate", "0.01", "1", "0.95"), "lognormal-level-1": fn("lognormal-deviate", "0.01", "3", "1"),
    "lognormal-level-0": fn("lognormal-deviate", "0.01", "3", "0"), "lognormal-mean": fn("lognormal-deviate", "0", "3", "0.95"), "lognormal-mean-neg": fn("lognormal-deviate", "-0.1", "3", "0.95"),
    "lognormal-sigma": fn("lognormal-deviate", "-5", "0"), "gamma-k": fn("gamma-deviate", "0", "0.01"), "gamma-theta": fn("gamma-deviate", "1", "-0.01"),
    "beta-alpha": fn("beta-deviate", "0", "1"), "beta-beta": fn("beta-deviate", "1", "-1"), "hist-order": hist(0, (0.5, 1), (0.4, 1)), "hist-first": hist(0.5, (0.4, 1), (0.6, 1)),
    "hist-weight": hist(0, (0.5, 1), (0.6, -1)), "min-1": fn("min", "0.5"), "max-1": fn("max", "0.5"), "mean-1": fn("mean", "0.5"), "add-1": fn("add", "0.5"), "mul-1": fn("mul", "0.5"),
    "div-1": fn("div", "0.5"), "sub-1": fn("sub", "0.5"), "and-1": fn("and", '<bool value="true"/>'), "or-1": fn("or", '<bool value="true"/>'),
}
# Not a probability.
BAD_PROB = {
    "p-1.5": fl(1.5), "p-neg": fl(-0.5), "p-eps": fl("1.000001"), "p-neg-eps": fl("-1e-9"), "p-nan": fl("NaN"), "p-inf": fl("INF"), "p-ninf": fl("-INF"), "p-int": '<int value="2"/>', "p-int-neg": '<int value="-1"/>',
    "p-huge": fl("1e300"), "p-add": fn("add", "0.6", "0.7"), "p-mul": fn("mul", "2", "0.9"), "p-sub": fn("sub", "0.2", "0.5"), "p-neg-fn": fn("neg", "0.3"), "p-pi": "<pi/>", "p-div": fn("div", "0.9", "0.5"),
    "p-exp": fn("exp", "0.1"), "p-uniform-hi": fn("uniform-deviate", "0.5", "1.5"), "p-uniform-lo": fn("uniform-deviate", "-0.1", "0.4"), "p-normal": fn("normal-deviate", "0.5", "1"),
    "p-hist": hist(0, (0.5, 1), (1.2, 1)), "p-gamma": fn("gamma-deviate", "5", "1"), "p-lognormal": fn("lognormal-deviate", "0.5", "10", "0.95"),
    "p-ite": fn("ite", '<bool value="true"/>', "1.5", "0.5"), "p-switch": "<switch><case>%s%s</case>%s</switch>" % ('<bool value="true"/>', fl(1.5), fl(0.5)), "p-time": fn("add", T, "1.5"),
    "p-mean": fn("mean", "0.9", "1.5"), "p-max": fn("max", "0.9", "1.5"), "p-min": fn("min", "-0.9", "0.5"), "p-nan-mul": fn("mul", "0.5", "NaN"), "p-nan-inf": fn("sub", "INF", "INF"),
    "p-nan-exp": fn("exponential", "NaN", T), "p-nan-glm": fn("GLM", "0.1", "NaN", "0.1", T), "p-nan-uniform": fn("uniform-deviate", "NaN", "0.5"), "p-nan-normal": fn("normal-deviate", "0.5", "NaN"),
    "p-nan-beta": fn("beta-deviate", "NaN", "1"), "p-nan-hist": hist(0, ("NaN", 1), (0.5, 1)), "p-nan-weight": hist(0, (0.3, "NaN"), (0.5, 1)), "p-nan-gamma": fn("gamma-deviate", "NaN", "0.1"), "p-nan-lognormal": fn("lognormal-deviate", "NaN", "3", "0.95"),
    "p-nan-weibull": fn("Weibull", "NaN", "2", "1", T), "p-nan-pt": fn(PT, "NaN", "100", "10", T), "p-nan-div": fn("div", "0.5", "NaN"), "p-nan-pow": fn("pow", "NaN", "2"), "p-nan-min": fn("min", "NaN", "NaN"),
}
GOOD_PROB = {
    "zero": fl(0), "one": fl(1), "int-1": '<int value="1"/>', "bool": '<bool value="true"/>', "tiny": fl("1e-300"), "denormal": fl("5e-324"), "exp-0": fn("exponential", "0", T), "exp-t0": fn("exponential", "1e-3", "0"), "glm-0": fn("GLM", "0", "1e-3", "0", T), "glm-1": fn("GLM", "1", "1e-3", "0.1", T),
    "weibull-t0": fn("Weibull", "100", "2", "0", T), "weibull-late": fn("Weibull", "100", "2", "1e6", T), "pt4": fn(PT, "1e-3", "100", "0", T), "pt5-mu0": fn(PT, "1e-3", "0", "100", "10", T),
    "pt11": fn(PT, "1e-3", "0", "0.1", "100", "10", "0", "100", '<bool value="true"/>', "1", "0", T), "div": fn("div", "0.5", "2"), "mod": fn("mod", "3", "2"), "mod-neg": fn("mod", "3", "-2"), "pow-0": fn("pow", "0", "1"),
    "pow-to-0": fn("pow", "0.5", "0"), "log": fn("log", "1"), "sqrt": fn("sqrt", "0"), "acos": fn("div", fn("acos", "1"), "4"), "asin": fn("abs", fn("div", fn("asin", "0"), "2")), "uniform": fn("uniform-deviate", "0", "1"), "uniform-eps": fn("uniform-deviate", "0.5", "0.5000001"),
    "normal": fn("normal-deviate", "0.5", "0.01"), "lognormal": fn("lognormal-deviate", "0.01", "1.01", "0.95"), "lognormal2": fn("lognormal-deviate", "-5", "0.1"), "beta": fn("beta-deviate", "1", "1"), "gamma": fn("gamma-deviate", "1", "0.001"),
    "hist": hist(0, (0.5, 0), (1, 1)), "hist-flat": hist(0.2, (0.5, 1), (0.9, 0)), "ite": fn("ite", '<bool value="false"/>', "0.1", "0.5"), "mean": fn("mean", "0", "1"), "sub": fn("sub", "1", "1"), "neg": fn("neg", "-0.3"),
    "switch": "<switch>%s</switch>" % fl(0.5), "max": fn("max", "-5", "0.5"), "exp-huge": fn("exponential", "1e3", T),
}
EVENT_TAGS = ("gate", "basic-event", "house-event", "event")
FORMULAS = ("and", "or", "atleast", "cardinality", "nand", "nor", "xor", "iff", "imply", "not")
EXPR_SINK = ("define-basic-event", "define-parameter")


class Doc:
    """Parsed documents of one model with parent links."""

    def __init__(self, texts):
        self.roots = [ET.fromstring(t) for t in texts]
        self.index()

    def index(self):
        self.parent = {}
        for r in self.roots:
            for p in r.iter():
                for c in p:
                    self.parent[c] = p

    def all(self, *tags):
        return [e for r in self.roots for e in r.iter() if e.tag in tags]

    def anc(self, e):
        while e in self.parent:
            e = self.parent[e]
            yield e

    def texts(self):
        return ["<?xml version='1.0' encoding='UTF-8'?>\n".encode() + ET.tostring(r, encoding="utf-8") for r in self.roots]


def is_deco(e):
    return e.tag in ("label", "attributes")


def content(e):
    return [c for c in e if not is_deco(c)]


def replace(d, old, new):
    p = d.parent[old]
    i = list(p).index(old)
    p.remove(old)
    p.insert(i, new)


def pick(rng, xs):
    xs = list(xs)
    return rng.choice(xs) if xs else None


# ------------------------------------------------------------------ faults: f(d, rng, sp) -> description or None
def in_formula(d, e):
    p = d.parent.get(e)
    return p is not None and p.tag not in ("members", "source", "hypothesis", "target") and "define-substitution" not in [a.tag for a in d.anc(e)]


def undefined_event(d, rng, sp):
    e = pick(rng, [x for x in d.all(*EVENT_TAGS) if d.parent[x].tag != "members" and x.get("name")])
    if e is None:
        return None
    e.set("name", rng.choice(["zz-undefined", "zz.undefined", e.get("name") + "-zz", e.get("name").split(".")[-1] + ".zz"]))
    return "%s in %s" % (e.tag, d.parent[e].tag)


def undefined_parameter(d, rng, sp):
    xs = [x for x in d.all("parameter")]
    e = pick(rng, xs)
    if e is None:
        e = pick(rng, [x for x in d.all("float") if d.parent[x].tag in EXPR_SINK])
        if e is None:
            return None
        replace(d, e, E('<parameter name="zz"/>'))
        return "parameter in float place"
    e.set("name", "zz-undefined")
    return "parameter"


def undefined_other(d, rng, sp):
    at = {"set-house-event": "name", "sequence": "name", "rule": "name", "event-tree": "name", "fork": "functional-event", "branch": "name", "define-initiating-event": "event-tree"}
    e = pick(rng, [x for x in d.all(*at) if x.get(at[x.tag]) and not (x.tag in ("define-sequence", "define-rule"))])
    if e is None:
        return None
    e.set(at[e.tag], "zz-undefined")
    return e.tag


def wrong_kind(d, rng, sp):
    e = pick(rng, [x for x in d.all("gate", "basic-event", "house-event") if d.parent[x].tag not in ("members", "source", "target")])
    if e is None:
        return None
    others = [t for t in ("gate", "basic-event", "house-event") if t != e.tag]
    # Another kind may have an element of that very name; only an unresolvable reference is the fault.
    base = ".".join(reversed([a.get("name") for a in d.anc(e) if a.tag in ("define-fault-tree", "define-component")]))
    rng.shuffle(others)
    for t in others:
        if sp.resolve(t, e.get("name"), base) is None:
            old = e.tag
            e.tag = t
            return "%s as %s" % (old, t)
    return None


def hidden(d, rng, sp):
    """A reference by the bare name of a private element outside of its scope."""
    e = pick(rng, [x for x in d.all(*EVENT_TAGS) if d.parent[x].tag in FORMULAS + ("define-gate",) and "define-substitution" not in [a.tag for a in d.anc(x)]])
    if e is None:
        return None
    base = ".".join(reversed([a.get("name") for a in d.anc(e) if a.tag in ("define-fault-tree", "define-component")]))
    kind = e.tag
    c = [sp.names[kk] for kk in sp.scope if kk[0] in ("gate", "basic-event", "house-event") and not sp.public(kk) and (kind == "event" or kk[0] == kind) and sp.resolve(kind, sp.names[kk], base) is None]
    n = pick(rng, c)
    if n is None:
        return None
    e.set("name", n)
    return kind


def hidden_parameter(d, rng, sp):
    c = [kk for kk in sp.scope if kk[0] == "parameter" and not sp.public(kk)]
    e = pick(rng, d.all("parameter"))
    if e is None or not c:
        return None
    base = ".".join(reversed([a.get("name") for a in d.anc(e) if a.tag in ("define-fault-tree", "define-component")]))
    n = pick(rng, [sp.names[kk] for kk in c if sp.resolve("parameter", sp.names[kk], base) is None])
    if n is None:
        return None
    e.set("name", n)
    return "parameter"


DEFS = ("define-gate", "define-basic-event", "define-house-event", "define-parameter", "define-CCF-group", "define-component", "define-fault-tree", "define-event-tree", "define-initiating-event", "define-rule",
        "define-alignment", "define-substitution", "define-sequence", "define-functional-event", "define-branch", "define-phase", "path", "attribute")


def duplicate(d, rng, sp):
    tag = pick(rng, sorted({x.tag for x in d.all(*DEFS)}))
    e = pick(rng, d.all(tag))
    if e is None:
        return None
    c = copy.deepcopy(e)
    p = d.parent[e]
    if tag == "define-component" and rng.random() < 0.5 or tag == "define-fault-tree":
        for x in list(c):
            if not is_deco(x):
                c.remove(x)
        if tag == "define-fault-tree":
            c.append(E('<define-gate name="zz-g"><or><basic-event name="zz-b"/><basic-event name="zz-c"/></or></define-gate>'))
            c.append(E('<define-basic-event name="zz-b">%s</define-basic-event>' % fl(0.5)))
            c.append(E('<define-basic-event name="zz-c">%s</define-basic-event>' % fl(0.5)))
    elif tag == "define-CCF-group" and rng.random() < 0.6:
        mem = c.find("members")
        for i, x in enumerate(list(mem)):
            x.set("name", "zz-member-%d" % i)
    elif tag == "define-phase":
        f = float(e.get("time-fraction"))
        e.set("time-fraction", repr(f / 2))
        c.set("time-fraction", repr(f / 2))
    elif tag == "define-initiating-event" and rng.random() < 0.5:
        c.attrib.pop("event-tree", None)
    elif tag == "define-rule":
        pass
    if p.tag == "opsa-mef" and len(d.roots) > 1 and rng.random() < 0.6:
        p = rng.choice(d.roots)
        p.append(c)
    elif p.tag == "model-data" and rng.random() < 0.3:
        md = ET.SubElement(rng.choice(d.roots), "model-data")
        md.append(c)
    else:
        i = list(p).index(e)
        k = rng.choice([i, i + 1]) if tag in ("define-sequence", "define-functional-event", "define-branch", "define-phase") else \
            rng.randint(next((j for j, x in enumerate(p) if not is_deco(x)), 0), len(p))
        if tag == "attribute":
            k = rng.randint(0, len(p))
        p.insert(k, c)
    return tag


def sequence_clash(d, rng, sp):
    """Sequences of all event trees share one name space."""
    ets = d.all("define-event-tree")
    s = [x for e in ets for x in e if x.tag == "define-sequence"]
    if len(ets) < 2 or not s:
        return None
    e = rng.choice(s)
    t = rng.choice([x for x in ets if x is not d.parent[e]])
    t.insert(next(i for i, x in enumerate(t) if x.tag in ("define-functional-event", "define-sequence", "define-branch", "initial-state")), copy.deepcopy(e))
    return "sequence"


def kind_clash(d, rng, sp):
    """An event of another kind with the identity of an existing one."""
    e = pick(rng, d.all("define-gate", "define-basic-event", "define-house-event"))
    kinds = ["define-gate", "define-basic-event", "define-house-event"]
    kinds.remove(e.tag)
    p = d.parent[e]
    if p.tag == "model-data" and "define-gate" in kinds:
        kinds.remove("define-gate")
    t = rng.choice(kinds)
    at = {k: v for k, v in e.attrib.items() if k in ("name", "role")}
    n = ET.Element(t, at)
    if t == "define-gate":
        n.append(E('<constant value="true"/>'))
    elif t == "define-basic-event":
        n.append(E(fl(0.5)))
    p.insert(rng.randint(next((j for j, x in enumerate(p) if not is_deco(x)), 0), len(p)), n)
    return "%s against %s" % (t, e.tag)


def public_clash(d, rng, sp):
    """Two public events of one name in different scopes."""
    c = [kk for kk in sp.scope if kk[0] in ("gate", "basic-event", "house-event") and sp.public(kk)]
    places = [x for x in d.all("define-fault-tree", "define-component")]
    kk = pick(rng, c)
    if kk is None:
        return None
    p = rng.choice(places)
    t = rng.choice(["define-gate", "define-basic-event", "define-house-event"])
    n = ET.Element(t, {"name": sp.names[kk], "role": "public"})
    if t == "define-gate":
        n.append(E('<constant value="true"/>'))
    elif t == "define-basic-event":
        n.append(E(fl(0.5)))
    p.append(n)
    return t


def public_param_clash(d, rng, sp):
    c = [kk for kk in sp.scope if kk[0] == "parameter" and sp.public(kk)]
    kk = pick(rng, c)
    if kk is None:
        return None
    n = ET.Element("define-parameter", {"name": sp.names[kk], "role": "public"})
    n.append(E(fl(0.5)))
    rng.choice(d.all("define-fault-tree", "define-component")).append(n)
    return "parameter"


def same_event(a, b):
    return a.tag == b.tag and a.attrib == b.attrib


def arity(d, rng, sp):
    f = pick(rng, [x for x in d.all(*FORMULAS) if any(a.tag in ("define-gate", "collect-formula", "hypothesis") for a in [d.parent[x]])])
    if f is None:
        return None
    t = f.tag
    args = list(f)
    k = rng.choice(["few", "dup", "min", "extra"])
    if k == "few":
        if t == "not":
            f.remove(args[0])
        else:
            for x in args[1:]:
                f.remove(x)
            if t == "cardinality" and int(f.get("max")) < 2 or rng.random() < 0.2:
                f.remove(args[0])
        return t + " few"
    if k == "dup":
        if t == "not":
            return None
        evs = [a for a in args if a.tag in EVENT_TAGS] + [a[0] for a in args if a.tag == "not" and a[0].tag in EVENT_TAGS]
        if not evs:
            return None
        c = copy.deepcopy(rng.choice(evs))
        if rng.random() < 0.3 and d.parent[f].tag != "hypothesis":
            n = ET.Element("not")
            n.append(c)
            c = n
        if t in ("xor", "iff", "imply"):
            if len(evs) < 1:
                return None
            for x in args:
                f.remove(x)
            f.append(copy.deepcopy(c if c.tag != "not" else c[0]))
        f.insert(rng.randint(0, len(f)), c)
        return t + " duplicate"
    if k == "extra":
        if t not in ("xor", "iff", "imply", "not"):
            return None
        f.append(E('<constant value="true"/>'))
        return t + " extra"
    n = len(args)
    if t == "atleast":
        f.set("min", rng.choice(["0", "1", "-1", str(n), str(n + 1), "1000000", "99999999999"]))
    elif t == "cardinality":
        f.set(*rng.choice([("min", str(int(f.get("max")) + 1)), ("max", str(n + 1)), ("min", "-1"), ("max", "-1"), ("max", "1000000000000")]))
    else:
        return None
    return t + " numbers"


def expr_place(d, rng, sink):
    """A random expression element standing where a probability is expected, or anywhere."""
    if sink == "prob":
        return pick(rng, [c for e in d.all("define-basic-event", "distribution", "factor") for c in e if not is_deco(c)])
    return pick(rng, [c for e in d.all("define-basic-event", "define-parameter", "distribution", "factor", "collect-expression") for c in e if not is_deco(c)] +
                [x for x in d.all("float", "parameter", "system-mission-time") if d.parent[x].tag in ("mul", "sub", "exponential", "uniform-deviate", "beta-deviate")])


def bad_function(d, rng, sp):
    e = expr_place(d, rng, "any")
    if e is None:
        return None
    k = rng.choice(sorted(BAD_FN))
    x = BAD_FN[k]
    if rng.random() < 0.3:
        w = rng.choice(["<mul>%s<float value=\"0\"/></mul>", "<ite><bool value=\"false\"/>%s<float value=\"0.5\"/></ite>", "<min>%s<float value=\"0.1\"/></min>"])
        x = w % x
        k += " nested"
    where = d.parent[e].tag
    replace(d, e, E(x))
    return "%s in %s" % (k, where)


def bad_probability(d, rng, sp):
    e = expr_place(d, rng, "prob")
    if e is None:
        return None
    k = rng.choice(sorted(BAD_PROB))
    where = d.parent[e].tag
    if rng.random() < 0.25:
        sc = next((a for a in d.anc(e) if a.tag in ("define-fault-tree", "define-component")), None)
        if sc is not None:
            sc.append(E('<define-parameter name="zz-p">%s</define-parameter>' % BAD_PROB[k]))
            replace(d, e, E('<parameter name="zz-p"/>'))
            return "%s through a parameter in %s" % (k, where)
    replace(d, e, E(BAD_PROB[k]))
    return "%s in %s" % (k, where)


def missing_expression(d, rng, sp):
    e = pick(rng, [x for x in d.all("define-basic-event") if content(x)])
    if e is None:
        return None
    for c in content(e):
        e.remove(c)
    return "basic event"


def unit_mismatch(d, rng, sp):
    units = {x.get("name"): x.get("unit") for x in d.all("define-parameter")}
    e = pick(rng, d.all("parameter"))
    if e is None:
        return None
    u = [units[n] for n in units if n == e.get("name").split(".")[-1]]
    c = [x for x in ("bool", "int", "float", "hours", "hours-1", "years", "years-1", "fit", "demands") if x not in u]
    e.set("unit", rng.choice(c))
    return "parameter"


def ccf(d, rng, sp):
    g = pick(rng, d.all("define-CCF-group"))
    if g is None:
        return None
    mem, fac = g.find("members"), g.find("factors")
    model = g.get("model")
    n = len(mem)
    k = rng.choice(["one", "dup", "level-high", "level-low", "redefine", "gap", "sum", "beta", "overlap", "defined", "model"])
    if k == "one":
        for x in list(mem)[1:]:
            mem.remove(x)
        for f in list(fac):
            fac.remove(f)
        fac.append(E('<factor level="%d">%s</factor>' % (2 if model in ("beta-factor", "MGL") else 1, fl(0.1 if model != "phi-factor" else 1))))
    elif k == "dup":
        mem.append(copy.deepcopy(rng.choice(list(mem))))
        if model == "beta-factor":
            fac[0].set("level", str(n + 1))
    elif k == "level-high":
        fac.insert(rng.randint(0, len(fac)), E('<factor level="%d">%s</factor>' % (n + rng.choice([1, 2, 1000000]), fl(0.1))))
    elif k == "level-low":
        if model not in ("MGL", "beta-factor"):
            return None
        fac.insert(rng.randint(0, len(fac)), E('<factor level="1">%s</factor>' % fl(0.1)))
    elif k == "redefine":
        fac.append(copy.deepcopy(rng.choice(list(fac))))
    elif k == "gap":
        if model == "beta-factor" or len(fac) < 2:
            return None
        fac.remove(rng.choice(list(fac)[:-1]))
    elif k == "sum":
        if model != "phi-factor":
            return None
        f = rng.choice(list(fac))
        replace(d, content(f)[0], E(fn("add", "0", "0.001") if rng.random() < 0.5 else fl(0.9999)))
        s = sum(float(x[0].get("value")) if x[0].tag == "float" else 0.001 for x in fac)
        if abs(s - 1) < 5e-4:
            return None
    elif k == "beta":
        if model != "beta-factor":
            return None
        if rng.random() < 0.5 and n > 2:
            fac[0].set("level", str(n - 1))
        else:
            fac.append(E('<factor level="%d">%s</factor>' % (n, fl(0.1))))
    elif k == "overlap":
        gs = d.all("define-CCF-group")
        if d.parent[g] is None:
            return None
        c = copy.deepcopy(g)
        c.set("name", "zz-ccf")
        d.parent[g].append(c)
    elif k == "defined":
        p = d.parent[g]
        if p.tag == "opsa-mef":
            p = ET.SubElement(p, "model-data")
        p.append(E('<define-basic-event name="%s">%s</define-basic-event>' % (rng.choice(list(mem)).get("name"), fl(0.1))))
    else:
        g.set("model", "zz-model")
    return "%s %s" % (model, k)


def align(d, rng, sp):
    a = pick(rng, d.all("define-alignment"))
    if a is None:
        return None
    ph = a.findall("define-phase")
    p = rng.choice(ph)
    f = float(p.get("time-fraction"))
    k = rng.choice(["sum", "zero", "neg", "above", "nan", "empty", "double"])
    if k == "sum":
        p.set("time-fraction", repr(f - 0.001 if f > 0.01 else f + 0.001))
    elif k == "zero":
        p.set("time-fraction", "0")
        if len(ph) == 1:
            return "sum"
        q = rng.choice([x for x in ph if x is not p])
        q.set("time-fraction", repr(float(q.get("time-fraction")) + f))
    elif k in ("neg", "above"):
        if len(ph) == 1:
            p.set("time-fraction", "-1" if k == "neg" else "1.5")
        else:
            q = rng.choice([x for x in ph if x is not p])
            s = float(q.get("time-fraction")) + f
            p.set("time-fraction", "-0.5" if k == "neg" else "1.25")
            q.set("time-fraction", repr(s + 0.5 if k == "neg" else s - 1.25))
    elif k == "nan":
        p.set("time-fraction", "NaN")
    elif k == "empty":
        for x in ph:
            a.remove(x)
    else:
        c = copy.deepcopy(p)
        c.set("name", "zz-phase")
        a.append(c)
    return k


def event_tree(d, rng, sp):
    et = pick(rng, d.all("define-event-tree"))
    if et is None:
        return None
    k = rng.choice(["order", "same-fork", "mixed", "link-cycle", "branch-cycle", "rule-cycle", "link-place", "no-target", "order-branch", "link-place-branch", "mixed-link"])
    forks = list(et.iter("fork"))
    fes = [x.get("name") for x in et.findall("define-functional-event")]
    init = et.find("initial-state")
    seqs = et.findall("define-sequence")
    leaf = lambda: pick(rng, [x for x in init.iter("sequence")])
    coll = lambda e: '<collect-expression>%s</collect-expression>' % fl(0.5)
    inner = [f for f in forks if any(a.tag == "fork" for a in d.anc(f))]
    if k == "order":
        f = pick(rng, inner)
        if f is None:
            return None
        out = next(a for a in d.anc(f) if a.tag == "fork")
        o = out.get("functional-event")
        i = fes.index(o)
        lower = [x for x in fes[:i]]
        if lower and rng.random() < 0.5:
            f.set("functional-event", rng.choice(lower))
            return "order"
        x, y = out.get("functional-event"), f.get("functional-event")
        out.set("functional-event", y)
        f.set("functional-event", x)
        return "order"
    if k == "same-fork":
        f = pick(rng, inner)
        if f is None:
            return None
        f.set("functional-event", next(a for a in d.anc(f) if a.tag == "fork").get("functional-event"))
        return k
    c = pick(rng, list(et.iter("collect-expression")) + list(et.iter("collect-formula")))
    if k == "mixed":
        if c is None:
            return None
        other = E(coll(0)) if c.tag == "collect-formula" else E('<collect-formula><constant value="true"/></collect-formula>')
        p = d.parent[c]
        if rng.random() < 0.4 and seqs:
            s = leaf()
            ns = [x for x in seqs if x.get("name") == s.get("name")]
            if not ns:
                return None
            ns[0].append(other)
            return "mixed in a sequence"
        p.insert(list(p).index(c) + rng.choice([0, 1]), other)
        return k
    if k == "mixed-link":
        if c is None:
            return None
        s = leaf()
        ns = [x for x in seqs if x.get("name") == s.get("name")]
        if not ns:
            return None
        other = coll(0) if c.tag == "collect-formula" else '<collect-formula><constant value="true"/></collect-formula>'
        ns[0].append(E('<event-tree name="zz-et"/>'))
        d.roots[0].append(E('<define-event-tree name="zz-et"><define-functional-event name="q"/><define-sequence name="zz-s"/><initial-state><fork functional-event="q"><path state="s">%s<sequence name="zz-s"/></path></fork></initial-state></define-event-tree>' % other))
        return k
    if k == "link-cycle":
        s = leaf()
        ns = [x for x in seqs if x.get("name") == s.get("name")]
        if not ns:
            return None
        if rng.random() < 0.5:
            ns[0].append(E('<event-tree name="%s"/>' % et.get("name")))
        else:
            ns[0].append(E('<event-tree name="zz-et"/>'))
            d.roots[0].append(E('<define-event-tree name="zz-et"><define-functional-event name="q"/><define-sequence name="zz-s"><event-tree name="%s"/></define-sequence><initial-state><sequence name="zz-s"/></initial-state></define-event-tree>' % et.get("name")))
        return k
    at = next(i for i, x in enumerate(et) if x.tag == "initial-state")
    if k == "branch-cycle":
        if rng.random() < 0.5:
            et.insert(at, E('<define-branch name="zz-a"><branch name="zz-b"/></define-branch>'))
            et.insert(at, E('<define-branch name="zz-b"><fork functional-event="%s"><path state="zz"><branch name="zz-a"/></path></fork></define-branch>' % rng.choice(fes)))
        else:
            et.insert(at, E('<define-branch name="zz-a"><branch name="zz-a"/></define-branch>'))
        return k
    if k == "rule-cycle":
        h = d.all("set-house-event")
        hn = h[0].get("name") if h else None
        if hn is None:
            return None
        sh = '<set-house-event name="%s"><constant value="true"/></set-house-event>' % hn
        if rng.random() < 0.5:
            d.roots[0].append(E('<define-rule name="zz-r">%s<rule name="zz-r"/></define-rule>' % sh))
        else:
            rng.choice(d.roots).append(E('<define-rule name="zz-r">%s<if><bool value="true"/><rule name="zz-q"/></if></define-rule>' % sh))
            rng.choice(d.roots).append(E('<define-rule name="zz-q"><block>%s<rule name="zz-r"/></block></define-rule>' % sh))
        return k
    if k in ("link-place", "link-place-branch"):
        d.roots[0].append(E('<define-event-tree name="zz-et"><define-functional-event name="q"/><define-sequence name="zz-s"/><initial-state><sequence name="zz-s"/></initial-state></define-event-tree>'))
        l = '<event-tree name="zz-et"/>'
        if rng.random() < 0.4:
            l = "<block>%s</block>" % l if rng.random() < 0.5 else '<if><bool value="true"/>%s</if>' % l
        l = E(l)
        if k == "link-place":
            p = rng.choice([init] + list(et.iter("path")))
            p.insert(0, l)
        else:
            b = E('<define-branch name="zz-a"><sequence name="%s"/></define-branch>' % seqs[0].get("name"))
            b.insert(0, l)
            et.insert(at, b)
        return k
    if k == "order-branch":
        f = pick(rng, forks)
        if f is None:
            return None
        o = f.get("functional-event")
        i = fes.index(o)
        ends = [x for x in f.iter("sequence")]
        s = rng.choice(ends)
        replace(d, s, E('<branch name="zz-a"/>'))
        et.insert(at, E('<define-branch name="zz-a"><branch name="zz-b"/></define-branch>'))
        col = c is not None and c.tag == "collect-expression"
        et.insert(at, E('<define-branch name="zz-b"><fork functional-event="%s"><path state="zz">%s<sequence name="%s"/></path></fork></define-branch>' % (
            rng.choice(fes[:i + 1]), "", s.get("name"))))
        return k
    for x in list(init):
        if x.tag in ("fork", "sequence", "branch"):
            init.remove(x)
    return k


def substitution(d, rng, sp):
    s = pick(rng, d.all("define-substitution"))
    if s is None:
        return None
    hyp, tgt = s.find("hypothesis"), s.find("target")
    f = hyp[0]
    gates = [sp.names[kk] for kk in sp.scope if kk[0] == "gate" and sp.public(kk) and sp.resolve("gate", sp.names[kk], "") == kk]
    houses = [sp.names[kk] for kk in sp.scope if kk[0] == "house-event" and sp.public(kk) and sp.resolve("house-event", sp.names[kk], "") == kk]
    k = rng.choice(["gate", "house", "not", "connective", "true", "type", "source-false", "source-connective", "source-dup", "source-hypothesis", "source-target"])
    if k == "gate" and gates:
        f.append(E('<gate name="%s"/>' % rng.choice(gates)))
    elif k == "house" and houses:
        f.append(E('<house-event name="%s"/>' % rng.choice(houses)) if rng.random() < 0.6 else E('<constant value="true"/>'))
    elif k == "not":
        x = f[0]
        f.remove(x)
        n = ET.Element("not")
        n.append(x)
        f.append(n)
    elif k == "connective":
        f.tag = rng.choice(["nand", "nor", "xor", "iff", "imply"])
        s.attrib.pop("type", None)
    elif k == "true":
        for x in list(tgt):
            tgt.remove(x)
        tgt.append(E('<constant value="true"/>'))
        s.attrib.pop("type", None)
    elif k == "type":
        t = "recovery-rule" if tgt[0].tag == "constant" else "delete-terms"
        s.set("type", rng.choice([t, "exchange-event"]))
    elif k.startswith("source"):
        s.attrib.pop("type", None)
        src = ET.Element("source")
        names = [x for x in f]
        src.append(copy.deepcopy(names[0]))
        s.insert(list(s).index(hyp) + 1, src)
        if tgt[0].tag == "constant":
            if k != "source-false":
                return None
        elif k == "source-connective":
            f.tag = rng.choice(["atleast", "nand", "xor"])
            if f.tag == "atleast":
                return None
        elif k == "source-dup":
            src.append(copy.deepcopy(names[0]))
        elif k == "source-target":
            src.append(copy.deepcopy(tgt[0]))
        elif k == "source-hypothesis":
            c = copy.deepcopy(s)
            c.set("name", "zz-subst")
            d.roots[0].append(c)
        else:
            return None
    else:
        return None
    return k


def schema_violation(d, rng, sp):
    k = rng.choice(["attr", "name", "elem", "drop-name", "text", "role", "order"])
    e = pick(rng, [x for r in d.roots for x in r.iter() if x.tag not in ("label",)])
    if k == "attr":
        e.set("zz", "1")
        return k
    if k == "elem":
        e.append(ET.Element("zz-element"))
        return k
    if k == "name":
        x = pick(rng, [x for x in d.all(*DEFS) if x.get("name") and x.tag != "path"])
        if x is None:
            return None
        x.set("name", rng.choice(["", "a b", "a.b", "1a", "a--b", "-a", "a-", "a/b", "é!", "a$"]))
        return k
    if k == "drop-name":
        x = pick(rng, [x for r in d.roots for x in r.iter() if x.get("name") and x.tag not in ("opsa-mef",)])
        if x is None:
            return None
        del x.attrib["name"]
        return "drop-name " + x.tag
    if k == "text":
        x = pick(rng, [x for r in d.roots for x in r.iter() if x.tag not in ("label",)])
        x.text = (x.text or "") + "stray"
        return k + " " + x.tag
    if k == "role":
        x = pick(rng, [x for x in d.all("define-basic-event", "define-gate", "define-house-event", "define-parameter", "define-component")])
        if x is None:
            return None
        x.set("role", rng.choice(["Public", "protected", ""]))
        return k
    x = pick(rng, [x for x in d.all("float") if x.get("value")])
    if x is None:
        return None
    x.set("value", rng.choice(["", "abc", "1,5", "0x1", "1e", "--1", "0.1.2", "1 2"]))
    return "number"


def private_global(d, rng, sp):
    x = pick(rng, [x for x in d.all("define-basic-event", "define-house-event", "define-parameter") if d.parent[x].tag == "model-data"])
    if x is None:
        return None
    x.set("role", "private")
    return x.tag


FAULTS = [undefined_event, undefined_event, undefined_parameter, undefined_other, wrong_kind, hidden, hidden_parameter, duplicate, duplicate, duplicate, sequence_clash, kind_clash, public_clash, public_param_clash,
          arity, arity, bad_function, bad_function, bad_function, bad_probability, bad_probability, bad_probability, missing_expression, unit_mismatch, ccf, ccf, ccf, align, align, align, event_tree, event_tree, event_tree, event_tree,
          substitution, substitution, substitution, substitution,
          schema_violation, private_global]


def gate_cycle(m, rng):
    """Closes a cycle in the abstract model; returns its length or None."""
    gates = {k[1]: it for k, it in m.items.items() if k[0] == "gate"}

    def refs(n):
        if n.tag == "@event":
            return [n.at["ref"].key] if n.at["ref"].kind == "gate" else []
        return [x for c in n.ch for x in refs(c)]
    g = rng.choice(sorted(gates))
    path = [g]
    while True:
        nxt = [x for x in refs(gates[path[-1]].node) if x in gates]
        if not nxt or rng.random() < 0.2:
            break
        path.append(rng.choice(nxt))
    node = gates[path[-1]].node
    f = node.ch[0]
    new = N("@event", {"ref": Ref("gate", g)})
    if f.tag in ("and", "or", "nand", "nor", "atleast", "cardinality") and g not in refs(f):
        f.ch.insert(rng.randint(0, len(f.ch)), N("not", {}, [new]) if rng.random() < 0.2 else new)
    elif f.tag in ("xor", "iff", "imply") and g not in refs(f):
        f.ch[rng.randrange(2)] = new
    elif g in refs(f):
        pass
    else:
        node.ch[0] = new
    return len(path)


def param_cycle(m, rng):
    ps = [k[1] for k in m.items if k[0] == "parameter"]
    if not ps:
        return None
    a = rng.sample(ps, min(len(ps), rng.choice([1, 2, 3])))
    for x, y in zip(a, a[1:] + a[:1]):
        ref = N("parameter", {"name": Ref("parameter", y)})
        m.items[("parameter", x)].node.ch[:] = [rng.choice([lambda: ref, lambda: N("mul", {}, [rich.F(0.5), ref]), lambda: N("ite", {}, [N("bool", {"value": "false"}), ref, rich.F(0.1)]),
                                                            lambda: N("uniform-deviate", {}, [rich.F(0.0), ref])])()]
    return len(a)


class Check(core.BaseCheck):
    ID = "C13"
    QUICK, THOROUGH = 2600, 40000
    RULE = ("valid random models of every construct (each first run and expected to be accepted, after boundary-valued expressions have been put in place), then one fault of a random kind at a random place: "
            "undefined, mistyped and out-of-scope references, duplicate definitions, clashing events, cycles of gates, parameters, rules, branches and links, wrong arities, invalid numbers, out-of-domain "
            "expressions, inconsistent CCF groups, alignments, event trees and substitutions, schema violations; the tool must exit with 1, write a diagnostic and no report; non-trivial: an accepted valid model "
            "whose faulty twin was rejected, distinct by fault, place and model")
    MIN = {"distinct": 1500, "accepted": 1500, "rejected": 1500}
    ASSUMPTIONS = ["the names in test-initiating-event and test-functional-event are not references (an input of the repository's tests relies on it)"]

    def case(self, ctx, rng, idx):
        seed = rng.randrange(1 << 62)
        import random
        abstract = rng.random()
        kw = dict(small=True, ccf=rng.random() < 0.45, et=rng.random() < 0.45, align=rng.random() < 0.3, subst=rng.random() < 0.3)
        m = rich.Rich(random.Random(seed), **kw)
        skw = dict(plain=rng.random() < 0.1, nfiles=rng.choice([1, 1, 2]))
        sseed = rng.randrange(1 << 62)
        sp, docs = rich.spell(m, random.Random(sseed), **skw)
        subst = any(k[0] == "substitution" for k in m.items)
        o = options.Options(rng, prob=True, prime=False)
        o.importance = o.importance and rng.random() < 0.3
        o.limit = rng.choice([1, 2, 3])
        o.trials = 2
        o.algorithm = "mocus" if o.algorithm == "mocus" and m.coherent else rng.choice(["bdd", "zbdd"])
        if not m.coherent:
            o.algorithm = "bdd"
        o.probability = True
        # Non-declarative substitutions need an approximation.
        args = o.cli(rng) + (["--rare-event"] if not o.approximation and subst else [])
        d = Doc(docs)
        # Boundary values keep a model valid.
        good = []
        for e in d.all("define-basic-event"):
            if content(e) and rng.random() < 0.25:
                k = rng.choice(sorted(GOOD_PROB))
                good.append(k)
                replace(d, content(e)[0], E(GOOD_PROB[k]))
        d.index()
        texts = d.texts()
        files = [ctx.write("valid%d.xml" % i, t) for i, t in enumerate(texts)]
        out = ctx.path("valid.out")
        r = ctx.scram(args + ["-o", out] + files, slow_ok=True)
        if r.timeout:
            return
        if r.code != 0 or not os.path.exists(out):
            err = r.err.decode(errors="replace")
            if "do not yield a probability" in err or "Non-declarative" in err and subst:
                ctx.count("refused_combination")
                return
            ctx.fail("valid-rejected:%s" % re.sub(r"[^A-Za-z ]+", "", self.msg(err))[:60], "args %s good %s\n%s" % (args, good, err[:1500]), stop=True)
        ctx.count("accepted")
        ctx.count("boundary_values", len(good))
        # One fault.
        kind = what = None
        if abstract < 0.08:
            kind, f = ("gate-cycle", gate_cycle) if rng.random() < 0.6 else ("parameter-cycle", param_cycle)
            what = f(m, rng)
            if what is None:
                return
            try:
                sp, docs = rich.spell(m, random.Random(sseed), **skw)
            except rich.Unspellable:
                return
            texts = [t.encode() for t in docs]
        elif abstract < 0.1:
            kind, what = "duplicate-file", "file"
        elif abstract < 0.12:
            kind, what = "missing-file", "file"
        else:
            for _ in range(40):
                f = rng.choice(FAULTS)
                d2 = Doc(texts)
                what = f(d2, rng, sp)
                if what is not None:
                    kind = f.__name__
                    break
            if kind is None:
                return
            texts = d2.texts()
        bad = [ctx.write("bad%d.xml" % i, t) for i, t in enumerate(texts)]
        if kind == "duplicate-file":
            bad.insert(rng.randint(0, len(bad)), rng.choice(["./" + os.path.basename(bad[0]), bad[0], os.path.dirname(bad[0]) + "/../" + os.path.basename(os.path.dirname(bad[0])) + "/" + os.path.basename(bad[0])]))
        elif kind == "missing-file":
            bad.insert(rng.randint(0, len(bad)), ctx.path("nothing.xml"))
        if rng.random() < 0.3 and what != "attribute":  # The attributes of the model are those of its first file.
            bad.reverse()
        out = ctx.path("bad.out")
        validate = rng.random() < 0.1
        r = ctx.scram(args + (["--validate"] if validate else []) + ["-o", out] + bad, slow_ok=True)
        if r.timeout:
            return
        key = "%s:%s" % (kind, re.sub(r"\d+", "N", str(what)))
        if r.code != 1:
            ctx.fail("accepted:" + key, "%s (%s) was accepted with status %s\nargs %s\n%s" % (kind, what, r.code, args, r.err.decode(errors="replace")[:500]), stop=True)
        if os.path.exists(out):
            ctx.fail("report:" + key, "a report was written for an invalid model", stop=True)
        if not r.err.strip():
            ctx.fail("silent:" + key, "no diagnostic", stop=True)
        if r.out.strip():
            ctx.fail("stdout:" + key, "output for an invalid model: %r" % r.out[:300], stop=True)
        ctx.count("rejected")
        ctx.count("fault:" + kind)
        ctx.sig(kind, str(what), texts[0][:2000])
        ctx.sample("%s (%s): %s" % (kind, what, r.err.decode(errors="replace").strip()[:300]))

    def msg(self, err):
        for line in err.splitlines():
            line = line.strip()
            if line and not line.endswith("Error") and "scram::" not in line:
                return line
        return err
