"""Shared by the fault-tree checks: run one tree and compare the report with the reference."""
import math
import mef, oracle
from report import Report

ALGO = {"bdd": "--bdd", "zbdd": "--zbdd", "mocus": "--mocus"}


def load(ctx, r, path="out.xml", key="no-report"):
    """The parsed report of a run that has to succeed."""
    if r.code != 0:
        ctx.fail("%s:exit%d" % (key, r.code), "valid model: exit %d args %s\n%s" % (r.code, r.args, r.err.decode(errors="replace")[-1500:]), stop=True)
    from core import rd
    import os
    data = rd(path if os.path.isabs(path) else ctx.path(path))
    try:
        return Report(data)
    except Exception as e:
        ctx.fail(key + ":unparsable", "report does not parse: %r; args %s; %r" % (e, r.args, data[:300]), stop=True)


def product_set(sop):
    return [frozenset(p.lits) for p in sop.products]


def show(sets, limit=12):
    return "{" + ", ".join(sorted(".".join(sorted(("~" if n else "") + v for n, v in s)) or "1" for s in sets)[:limit]) + "}"


def compare_products(ctx, key, got, want, note):
    """got: list of frozenset literals as reported; want: set of frozensets."""
    gs = set(got)
    ok = True
    for lits in got:
        vs = [v for _, v in lits]
        if len(vs) != len(set(vs)):
            ctx.fail(key + ":contradiction", "%s: product with a variable twice %s" % (note, sorted(lits)))
            ok = False
    if len(got) != len(gs):
        ctx.fail(key + ":duplicate", "%s: duplicate products: got %d distinct %d" % (note, len(got), len(gs)))
        ok = False
    if gs != want:
        miss, extra = want - gs, gs - want
        kind = "missing" if miss and not extra else "extra" if extra and not miss else "different"
        ctx.fail("%s:%s" % (key, kind), "%s: missing %s extra %s (want %d got %d)" % (note, show(miss), show(extra), len(want), len(gs)))
        ok = False
    return ok


def lits_of(masks, vars):
    out = set()
    for m in masks:
        out.add(frozenset((False, v) for i, v in enumerate(vars) if m >> i & 1))
    return out


def gen(rng, sizes, coherent, livelier=True, **kw):
    """A random tree with its truth tables; degenerate non-coherent tops are mostly turned around."""
    t = mef.gen_tree(rng, nb=rng.choice(sizes), coherent=coherent, max_args=rng.choice([3, 4, 6]), **kw)
    vars = list(t.basics)
    vals = oracle.eval_gates(t.gates, t.houses, vars)
    if not coherent and livelier:
        changed = False
        for top in t.tops():
            if vals[top] & 1 and vals[top] != oracle.full(len(vars)) and rng.random() < 0.75:
                changed |= mef.negate(t, top)
        if changed:
            vals = oracle.eval_gates(t.gates, t.houses, vars)
    return t, vars, vals


def lit_p(lits, p):
    r = 1.0
    for neg, v in lits:
        r *= 1 - p[v] if neg else p[v]
    return r


def many_products(rng):
    """A coherent tree with hundreds to tens of thousands of minimal cut sets, by its construction."""
    t = mef.Tree()
    count = [0]

    def leaves(k):
        r = []
        for _ in range(k):
            count[0] += 1
            n = "b%d" % count[0]
            t.basics[n] = float("%.6g" % (rng.uniform(.01, .3) if rng.random() < .5 else 10 ** rng.uniform(-4, -1)))
            r.append((False, "b", n))
        return r

    def gate(op, args, k=None):
        n = "g%d" % (len(t.gates) + 2)
        t.gates[n] = mef.Gate(op, args, k)
        return (False, "g", n)
    want, number, parts = rng.choice([300, 1500, 1500, 4000, 8000]), 1, []
    shared = leaves(rng.randint(2, 5))
    while number < want and len(parts) < 6:
        n = rng.randint(5, 9)
        k = rng.randint(2, n - 2)
        if rng.random() < .4 and number * math.comb(n, k) <= 20000:
            parts.append(gate("atleast", leaves(n), k))
            number *= math.comb(n, k)
        else:
            n = rng.randint(3, 9)
            args = leaves(n)
            if rng.random() < .5:
                args.append(gate("and", [rng.choice(shared)] + leaves(1)))
            parts.append(gate("or", args))
            number *= len(args)
    gates = dict(t.gates)
    t.gates = {"g1": mef.Gate("and", parts) if len(parts) > 1 else mef.Gate("null", parts)}
    if rng.random() < .5:
        gates["g0"] = t.gates["g1"]
        t.gates = {"g1": mef.Gate("or", [(False, "g", "g0")] + shared)}
    t.gates.update(gates)
    return t
