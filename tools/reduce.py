"""Delta-debugs a fault-tree model (one fault tree, flat) while the CLI keeps showing the wanted symptom.
usage: reduce.py model.xml 'crash-key-substring' scram-args...   (substring 'MISMATCH' = products differ from the reference)"""
import os, sys, tempfile, xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(__file__), "..", "checks"))
import build, core, mef, oracle, ft_common
from report import Report

model, want, args = sys.argv[1], sys.argv[2], sys.argv[3:]


def parse(path):
    root = ET.parse(path).getroot()
    ft = root.find("define-fault-tree")
    t = mef.Tree(ft.get("name"))

    def arg(e, neg=False):
        if e.tag == "not":
            return arg(e[0], True)
        if e.tag == "constant":
            return (neg, "c", e.get("value") == "true")
        return (neg, {"gate": "g", "basic-event": "b", "house-event": "h"}[e.tag], e.get("name"))
    for e in ft:
        if e.tag == "define-gate":
            f = [x for x in e if x.tag not in ("label", "attributes")][0]
            if f.tag in ("gate", "basic-event", "house-event", "constant"):
                g = mef.Gate("null", [arg(f)])
            elif f.tag == "not":
                g = mef.Gate("not", [arg(f[0])])
            else:
                g = mef.Gate(f.tag, [arg(x) for x in f])
                g.k = int(f.get("min")) if f.get("min") else None
                g.k2 = int(f.get("max")) if f.get("max") else None
            t.gates[e.get("name")] = g
        elif e.tag == "define-basic-event":
            t.basics[e.get("name")] = float(e[0].get("value"))
        elif e.tag == "define-house-event":
            t.houses[e.get("name")] = e[0].get("value") == "true"
    return t


class C(core.BaseCheck):
    ID = "X"


tmp = tempfile.mkdtemp()
env = build.build_core("asan")
open(tmp + "/warm.xml", "w").write(core.WARM_MODEL)
open(tmp + "/wp.xml", "w").write(core.WARM_PROJECT)
env["warm"] = tmp + "/wp.xml"
ctx = core.Ctx(C(), env, "quick", 1)
ctx.reset(0, tmp)


def bad(t):
    f = ctx.write("m.xml", mef.tree_xml(t))
    ctx.fails = []
    ctx.write("out.xml", "")
    try:
        r = ctx.scram(args + ["-o", "out.xml", f])
        if want != "MISMATCH":
            return False
        if r.code:
            return False
        rep = Report(core.rd(ctx.path("out.xml")))
        vars = list(t.basics)
        vals = oracle.eval_gates(t.gates, t.houses, vars)
        for top in t.tops():
            w = ft_common.lits_of(oracle.mcs(vals[top], len(vars)), vars)
            if "--prime-implicants" in args:
                w = {frozenset((n, vars[i]) for n, i in p) for p in oracle.primes(vals[top], len(vars))}
            if set(ft_common.product_set(rep.sop(top))) != w:
                return True
        return False
    except core.CaseViolation:
        return any(want in k for k, _ in ctx.fails)


def valid(t):
    for g in t.gates.values():
        n = len(g.args)
        if n == 0 or len({a[1:] for a in g.args}) != n:
            return False
        if g.op in ("null", "not") and n != 1:
            return False
        if g.op in ("and", "or", "nand", "nor") and n < 2:
            return False
        if g.op in ("xor", "iff", "imply") and n != 2:
            return False
        if g.op == "atleast" and not (2 <= g.k < n):
            return False
        if g.op == "cardinality" and not (0 <= g.k <= g.k2 <= n):
            return False
        for a in g.args:
            if a[1] == "g" and a[2] not in t.gates:
                return False
    return True


def clone(t):
    n = mef.Tree(t.name)
    n.gates = {k: g.copy() for k, g in t.gates.items()}
    n.basics, n.houses = dict(t.basics), dict(t.houses)
    return n


def prune(t):
    tops = t.tops()
    live, st = set(), [tops[0]] if len(tops) == 1 else list(tops)
    while st:
        x = st.pop()
        if x not in live:
            live.add(x)
            st += [a[2] for a in t.gates[x].args if a[1] == "g"]
    t.gates = {k: g for k, g in t.gates.items() if k in live}
    ub = {a[2] for g in t.gates.values() for a in g.args if a[1] == "b"}
    uh = {a[2] for g in t.gates.values() for a in g.args if a[1] == "h"}
    t.basics = {k: v for k, v in t.basics.items() if k in ub}
    t.houses = {k: v for k, v in t.houses.items() if k in uh}
    return t


def cands(t):
    for top in t.tops():
        if len(t.tops()) > 1:
            n = clone(t)
            del n.gates[top]
            yield n
    for name in list(t.gates):
        if name not in t.tops():
            for rep in [(False, "b", b) for b in list(t.basics)[:4]] + [(False, "c", True), (False, "c", False)] + list(t.gates[name].args):
                n = clone(t)
                for g in n.gates.values():
                    g.args = [((a[0] != rep[0]) if rep[1] != "c" else False, rep[1], rep[2]) if a[1:] == ("g", name) else a for a in g.args]
                del n.gates[name]
                yield n
        for i in range(len(t.gates[name].args)):
            n = clone(t)
            del n.gates[name].args[i]
            g = n.gates[name]
            if len(g.args) == 1 and g.op in ("and", "or"):
                g.op = "null"
            if g.op == "atleast" and g.k >= len(g.args):
                g.k = len(g.args) - 1
                if g.k < 2:
                    g.op, g.k = "and", None
            yield n
        for i, a in enumerate(t.gates[name].args):
            if a[0]:
                n = clone(t)
                n.gates[name].args[i] = (False,) + a[1:]
                yield n
            if a[1] in "gh":
                for b in list(t.basics)[:5] + [True, False]:
                    n = clone(t)
                    n.gates[name].args[i] = (False, "c" if isinstance(b, bool) else "b", b)
                    yield n
        if t.gates[name].op not in ("and", "or", "null", "not"):
            for op in ("and", "or"):
                n = clone(t)
                n.gates[name].op = op
                n.gates[name].k = n.gates[name].k2 = None
                yield n


t = parse(model)
assert bad(t), "the model does not show the symptom"
progress = True
while progress:
    progress = False
    for n in cands(t):
        if not n.gates or not valid(n):
            continue
        n = prune(n)
        if n.gates and valid(n) and bad(n):
            t, progress = n, True
            break
print(mef.tree_xml(t))
