import math
import core, expr, oracle
from expr import Gen, Reject
from xml.sax.saxutils import quoteattr

UNITS = ["hours", "hours-1", "years", "years-1", "fit", "demands", "bool", "int", "float", None, None, None]


class Check(core.BaseCheck):
    ID = "C11"
    QUICK, THOROUGH = 1500, 60000
    RULE = ("random parameters over every built-in of the exchange format (nesting up to depth 4, references in any order, private and public, units, deviates at their mean) evaluated by the real "
            "expression objects at a random mission time and by an independent evaluator; an equality to 1e-7 relative; non-trivial: a new combination of operations with its value")
    MIN = {"distinct": 2000, "basic_checked": 500}
    ASSUMPTIONS = ["expressions within 1e-7 of a discontinuity (comparison, rounding, integer conversion) are not generated unless exactly representable",
                   "the 11-argument periodic test is compared with a restatement of its documented recursion, the 4- and 5-argument forms with an independent derivation"]

    def case(self, ctx, rng, idx):
        T = rng.choice([8760.0, 100.0, 1.0, 1000.0, rng.uniform(1, 9000), 0.0 if rng.random() < 0.2 else 24.0])
        n = rng.randint(3, 10)
        params = []
        gen = Gen(rng, T, params, deviates=rng.random() < 0.5, nested=rng.random() < 0.3)
        while len(params) < n:
            try:
                r = rng.random()
                e = gen.law() if r < 0.15 else gen.deviate() if r < 0.25 and gen.deviates else gen.gen(rng.choice([1, 2, 2, 3, 3, 4]))
            except Reject:
                continue
            params.append(("p%d" % len(params), rng.choice(UNITS), e))
        basics = []
        for _ in range(rng.randint(1, 4)):
            for _ in range(20):
                try:
                    e = gen.law() if rng.random() < 0.6 else gen.gen(3)
                except Reject:
                    continue
                if 0 <= e.v <= 1 and 0 <= e.iv[0] and e.iv[1] <= 1:
                    basics.append(("b%d" % len(basics), e))
                    break
        private = rng.random() < 0.3 and "private" or None
        defs = ["<define-parameter name=%s%s>%s</define-parameter>" % (quoteattr(nm), " unit=%s" % quoteattr(u) if u else "", e.xml()) for nm, u, e in params]
        bdefs = ["<define-basic-event name=%s>%s</define-basic-event>" % (quoteattr(nm), e.xml()) for nm, e in basics]
        rng.shuffle(defs)
        gate = "<define-gate name='g'><or>%s<basic-event name='x'/><basic-event name='y'/></or></define-gate>" % "".join("<basic-event name=%s/>" % quoteattr(nm) for nm, _ in basics)
        bdefs += ["<define-basic-event name='x'><float value='0'/></define-basic-event>", "<define-basic-event name='y'><float value='0'/></define-basic-event>"]
        rng.shuffle(bdefs)
        where = rng.randrange(3)
        if private:
            body = "<define-fault-tree name='ft'>%s%s</define-fault-tree>" % (gate, "".join(bdefs) + "".join(d.replace("<define-parameter ", "<define-parameter role='private' ", 1) for d in defs))
            pre = "ft."
        elif where == 0:
            body = "<define-fault-tree name='ft'>%s%s</define-fault-tree>" % (gate, "".join(defs + bdefs))
            pre = ""
        else:
            body = "<define-fault-tree name='ft'>%s%s</define-fault-tree><model-data>%s</model-data>" % (gate, "".join(bdefs), "".join(defs))
            pre = ""
        f = ctx.write("m.xml", "<?xml version='1.0'?>\n<opsa-mef>\n%s\n</opsa-mef>\n" % body.replace("><define", ">\n<define"))
        out = ctx.path("o.txt")
        r = ctx.probe(["expr", out, "0", "1", repr(T), "0", f])
        if r.code != 0:
            ctx.fail("rejected", "valid expressions rejected: %s" % r.err.decode(errors="replace")[-1500:], stop=True)
        got = {}
        bas = {}
        for line in core.rd(out).decode().splitlines():
            w = line.split()
            if w[0] == "param":
                got[w[1]] = (float(w[2]), float(w[3]), float(w[4]), w[5] == "1")
            elif w[0] == "basic":
                bas[w[1]] = float(w[2])
        for nm, u, e in params:
            g = got.get(pre + nm)
            if g is None:
                ctx.fail("missing", "parameter %s not found in %s" % (pre + nm, sorted(got)))
                continue
            for o in e.ops(set()):
                ctx.count("op_" + o)
            ctx.sig(sorted(e.ops(set())), round(e.v, 6))
            if not same(g[0], e.v):
                ctx.fail("value:" + e.op, "%s = %r, want %r at time %r: %s" % (nm, g[0], e.v, T, e.xml()))
            if g[3] != e.dev:
                ctx.fail("deviate-flag:" + e.op, "%s deviate %r want %r: %s" % (nm, g[3], e.dev, e.xml()))
        for nm, e in basics:
            ctx.count("basic_checked")
            if nm not in bas or not same(bas[nm], e.v):
                ctx.fail("basic:" + e.op, "%s p = %r want %r: %s" % (nm, bas.get(nm), e.v, e.xml()))
        ctx.sample(defs[0])

    def finish(self, stats):
        return []


def same(a, b):
    return abs(a - b) <= 1e-7 * max(1e-3, abs(a), abs(b)) or abs(a - b) <= 1e-10
