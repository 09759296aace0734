import math, struct, xml.etree.ElementTree as ET
from xml.sax.saxutils import escape
import core, report, options, schema

# What a supported model is: public gates, basic events, house events in flat fault trees, constant and exponential expressions.
ODD = ["", " ", "&", "<", '"', "'", ">", "\u00e9", "\u4e2d", "]]>", "--", "&amp;", "%d", "\U0001f600", "\t", "\n", "\r", "  ", "a\nb", "a\tb", "a\rb", "a\r\nb", "\u00a0"]
NAMES = ["a", "B1", "_x", "ev-1", "g-a-b", "\u00e9v", "\u4e2d\u6587", "T_rue", "x__", "X1", "null", "or", "event"]
CON = {"and": (2, 9), "or": (2, 9), "nand": (2, 9), "nor": (2, 9), "not": (1, 1), "null": (1, 1), "xor": (2, 2), "atleast": (3, 9)}


def cdata(s, attr, rng):
    out = []
    for c in s:
        if c in "\r" or (attr and c in "\n\t"):
            out.append(rng.choice(["&#%d;", "&#x%x;"]) % ord(c))
        elif c == "<":
            out.append("&lt;")
        elif c == "&":
            out.append("&amp;")
        elif c == ">" and (not attr or rng.random() < 0.5):
            out.append("&gt;")
        elif c in "\"'" and attr:
            out.append({'"': "&quot;", "'": "&apos;"}[c])
        else:
            out.append(c)
    return "".join(out)


class Model:
    def __init__(self, rng):
        self.rng, self.used = rng, set()
        r = rng.random
        self.name = self.ident() if r() < 0.5 else None
        self.info = self.text() if r() < 0.5 else ("", {})
        self.T = rng.choice([8760.0, 100.0, 0.5, 1000.0])
        nb, nh = rng.randint(1, 9), rng.choice([0, 0, 1, 2, 3])
        self.basics = {self.ident(): None for _ in range(nb)}
        self.houses = {self.ident(): None for _ in range(nh)}
        self.einfo = {}
        for n in self.basics:
            self.basics[n] = self.expr(0) if r() < 0.9 else None
        self.complete = all(e is not None for e in self.basics.values())
        for n in self.houses:
            self.houses[n] = rng.choice([True, False, None])
        self.fts, self.gates = [], {}
        leaves = list(self.basics) + list(self.houses)
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            ft, gs = self.ident(), []
            for _ in range(rng.randint(1, 6)):
                g = self.ident()
                self.gates[g] = self.formula(leaves + list(self.gates))
                gs.append(g)
            self.fts.append((ft, gs))
        for n in list(self.basics) + list(self.houses) + list(self.gates) + [f for f, _ in self.fts]:
            if r() < 0.35:
                self.einfo[n] = self.text()

    def ident(self):
        while True:
            n = self.rng.choice(NAMES) + ("" if self.rng.random() < 0.3 else self.rng.choice(["%d", "_%d", "-%d"]) % self.rng.randint(0, 99))
            if n not in self.used:
                self.used.add(n)
                return n

    def string(self, attr):
        rng = self.rng
        while True:
            s = "".join(rng.choice(ODD + list("abcXYZ 0123.,;:/()")) for _ in range(rng.randint(1, 8))).strip(" \t\r\n")
            if s:
                return s

    def text(self):
        rng = self.rng
        attrs = {}
        for i in range(rng.choice([0, 0, 1, 1, 2, 4])):
            n = rng.choice(NAMES) + str(i)
            attrs[n] = (self.string(True), self.string(True) if rng.random() < 0.5 else "")
        return (self.string(False) if rng.random() < 0.6 else "", attrs)

    def value(self, unit):
        rng = self.rng
        k = rng.random()
        if k < 0.15:
            return rng.choice([0.0, 1.0, 0.5, 0.1, 1 / 3, 1e-300, 5e-324, 0.9999999, 0.99999999999, 1e-7, 123456.7e-8])
        if k < 0.3:
            return rng.randint(0, 1000000) / 1e6
        v = rng.random()
        return v if k < 0.6 else v * 10.0 ** -rng.randint(0, 15)

    def const(self, lo):
        v = self.value(lo)
        if v in (0.0, 1.0):
            return self.rng.choice([("float", v), ("int", v), ("bool", v)])
        return ("float", v)

    def expr(self, d):
        rng = self.rng
        if rng.random() < 0.55 or d:
            return self.const(0)
        lam = self.const(0)
        if rng.random() < 0.5:
            lam = ("float", lam[1] * 10.0 ** rng.choice([0, 3, 7]))
        if rng.random() < 0.4:
            t = ("time",)
        elif rng.random() < 0.85:
            t = ("float", rng.choice([self.value(0) * 10 ** rng.randint(0, 9), float(rng.randint(0, 10 ** 7)), 1234567.0, 87600.125]))
        else:
            t = ("int", float(rng.randint(0, 2 ** 31 - 1)))
        if rng.random() < 0.08:
            lam = ("exp", lam, ("float", 2.0))
        return ("exp", lam, t)

    def formula(self, pool):
        rng = self.rng
        while True:
            con = rng.choice(["and", "or", "and", "or", "nand", "nor", "not", "null", "xor", "atleast"])
            lo, hi = CON[con]
            if len(pool) < lo:
                continue
            args = rng.sample(pool, min(len(pool), rng.randint(lo, min(hi, 6)) if hi > lo else lo))
            l = [(rng.random() < 0.2 and con not in ("not", "null"), a) for a in args]
            if rng.random() < 0.12 and con != "not":
                k = rng.randrange(len(l))
                l[k] = (False, rng.choice([True, False]))
            k = None
            if con == "atleast":
                k = rng.randint(2, len(l) - 1)
            return (con, k, tuple(l))

    # -- the document
    def head(self, n, inf):
        rng, out = self.rng, ""
        label, attrs = inf
        pad = lambda: rng.choice(["", "", " ", "\n  "])
        if label:
            out += "<label>%s%s%s</label>" % (pad(), cdata(label, False, rng), pad())
        if attrs:
            out += "<attributes>%s</attributes>" % "".join(
                '<attribute name="%s" value="%s"%s/>' % (cdata(a, True, rng), rng.choice(["", "", " "]) + cdata(v, True, rng), ' type="%s"' % cdata(t, True, rng) if t else "") for a, (v, t) in attrs.items())
        return out

    def ref(self, a):
        rng = self.rng
        if a is True or a is False:
            return '<constant value="%s"/>' % rng.choice(["true", "1"] if a else ["false", "0"])
        kind = "gate" if a in self.gates else "house-event" if a in self.houses else "basic-event"
        if rng.random() < 0.5:
            return '<event name="%s"%s/>' % (a, ' type="%s"' % kind if rng.random() < 0.3 else "")
        return '<%s name="%s"/>' % (kind, a)

    def xexpr(self, e):
        if e[0] == "exp":
            return "<exponential>%s%s</exponential>" % (self.xexpr(e[1]), self.xexpr(e[2]))
        if e[0] == "time":
            return "<system-mission-time/>"
        if e[0] == "int":
            return '<int value="%d"/>' % e[1]
        if e[0] == "bool":
            return '<bool value="%s"/>' % ("true" if e[1] else "false")
        return '<float value="%s"/>' % repr(e[1])

    def xml(self):
        rng = self.rng
        defs = {}
        for g, (con, k, args) in self.gates.items():
            body = "".join("<not>%s</not>" % self.ref(a) if neg else self.ref(a) for neg, a in args)
            if con != "null":
                body = "<%s%s>%s</%s>" % (con, ' min="%d"' % k if k is not None else "", body, con)
            defs[g] = '<define-gate name="%s">%s%s</define-gate>' % (g, self.head(g, self.einfo.get(g, ("", {}))), body)
        leaves = []
        for n, e in self.basics.items():
            leaves.append('<define-basic-event name="%s">%s%s</define-basic-event>' % (n, self.head(n, self.einfo.get(n, ("", {}))), self.xexpr(e) if e else ""))
        for n, s in self.houses.items():
            leaves.append('<define-house-event name="%s">%s%s</define-house-event>' % (n, self.head(n, self.einfo.get(n, ("", {}))), "" if s is None else '<constant value="%s"/>' % ("true" if s else "false")))
        rng.shuffle(leaves)
        inside = {f: [] for f, _ in self.fts}
        data = []
        for l in leaves:
            if rng.random() < 0.3:
                inside[rng.choice(self.fts)[0]].append(l)
            else:
                data.append(l)
        parts = []
        for f, gs in self.fts:
            body = [defs[g] for g in gs] + inside[f]
            rng.shuffle(body)
            parts.append('<define-fault-tree name="%s">%s%s</define-fault-tree>' % (f, self.head(f, self.einfo.get(f, ("", {}))), "".join(body)))
        if data:
            parts.insert(rng.randint(0, len(parts)), "<model-data>%s</model-data>" % "".join(data))
        return '<?xml version="1.0" encoding="UTF-8"?><opsa-mef%s>%s%s</opsa-mef>' % (' name="%s"' % self.name if self.name else "", self.head(None, self.info), "".join(parts))

    def canon(self):
        """What the saved document must say."""
        inf = lambda n: self.einfo.get(n, ("", {}))
        def ex(e):
            return None if e is None else ("exp", ex(e[1]), ex(e[2])) if e[0] == "exp" else e if e[0] == "time" else ("c", e[1])
        return {"model": (self.name, self.info),
                "fts": {f: (inf(f), frozenset(gs)) for f, gs in self.fts},
                "gates": {g: (inf(g), f[0], f[1], frozenset(f[2])) for g, f in self.gates.items()},
                "basics": {n: (inf(n), ex(e)) for n, e in self.basics.items()},
                "houses": {n: (inf(n), bool(s)) for n, s in self.houses.items()}}


class Bad(Exception):
    pass


def attr_true(v):
    if v not in ("true", "false", "1", "0"):
        raise Bad("Boolean value %r" % v)
    return v in ("true", "1")


def read(data):
    """The meaning of a saved document, by rules of the model exchange format alone."""
    try:
        root = ET.fromstring(data)
    except ET.ParseError as e:
        raise Bad("not well-formed: %s" % e)
    out = {"fts": {}, "gates": {}, "basics": {}, "houses": {}}

    def head(e):
        label, attrs, rest = "", {}, []
        for c in e:
            if c.tag == "label":
                label = (c.text or "").strip(" \t\r\n")
            elif c.tag == "attributes":
                for a in c:
                    if a.get("name").strip(" \t\r\n") in attrs:
                        raise Bad("duplicate attribute")
                    attrs[a.get("name").strip(" \t\r\n")] = (a.get("value").strip(" \t\r\n"), (a.get("type") or "").strip(" \t\r\n"))
            else:
                rest.append(c)
        return (label, attrs), rest

    def put(d, e, v):
        if e.get("name") in d:
            raise Bad("%s %s defined twice" % (e.tag, e.get("name")))
        d[e.get("name")] = v

    def arg(e):
        if e.tag == "not":
            neg, a = arg(e[0])
            return (not neg, a)
        if e.tag == "constant":
            return (False, attr_true(e.get("value")))
        kinds = {"event": None, "gate": "gate", "house-event": "house-event", "basic-event": "basic-event"}
        if e.tag not in kinds:
            raise Bad("unexpected argument %s" % e.tag)
        refs.append((e.get("name"), kinds[e.tag] or e.get("type")))
        return (False, e.get("name"))

    def formula(e):
        if e.tag in CON:
            l = [arg(c) for c in e]
            if len(set(l)) != len(l):
                raise Bad("duplicate argument")
            return (e.tag, int(e.get("min")) if e.get("min") is not None else None, frozenset(l))
        return ("null", None, frozenset([arg(e)]))

    def expr(e):
        if e.tag == "exponential":
            if len(e) != 2:
                raise Bad("exponential with %d arguments" % len(e))
            return ("exp", expr(e[0]), expr(e[1]))
        if e.tag == "system-mission-time":
            return ("time",)
        if e.tag in ("float", "int"):
            return ("c", float(e.get("value")))
        if e.tag == "bool":
            return ("c", float(attr_true(e.get("value"))))
        raise Bad("unexpected expression %s" % e.tag)

    def leaf(c):
        inf, rest = head(c)
        if c.tag == "define-basic-event":
            put(out["basics"], c, (inf, expr(rest[0]) if rest else None))
        elif c.tag == "define-house-event":
            put(out["houses"], c, (inf, attr_true(rest[0].get("value")) if rest else False))
        else:
            raise Bad("unexpected %s" % c.tag)

    refs = []
    inf, rest = head(root)
    out["model"] = (root.get("name"), inf)
    for c in rest:
        if c.tag == "define-fault-tree":
            fi, body = head(c)
            gs = []
            for g in body:
                if g.tag == "define-gate":
                    gi, f = head(g)
                    if len(f) != 1:
                        raise Bad("gate %s with %d formulas" % (g.get("name"), len(f)))
                    put(out["gates"], g, (gi,) + formula(f[0]))
                    gs.append(g.get("name"))
                else:
                    leaf(g)
            put(out["fts"], c, (fi, frozenset(gs)))
        elif c.tag == "model-data":
            for d in c:
                leaf(d)
        else:
            raise Bad("unexpected %s" % c.tag)
    for n, kind in refs:
        where = [k for k, d in (("gate", "gates"), ("basic-event", "basics"), ("house-event", "houses")) if n in out[d]]
        if len(where) != 1 or (kind and kind != where[0]):
            raise Bad("reference %r (%s) names %s" % (n, kind, where))
    return out


def first_diff(a, b):
    for part in ("model", "fts", "gates", "basics", "houses"):
        if part == "model":
            if a[part] != b[part]:
                return "model", "%r saved as %r" % (a[part], b[part])
            continue
        for k in sorted(set(a[part]) | set(b[part])):
            x, y = a[part].get(k), b[part].get(k)
            if x != y:
                return part, "%s: %r saved as %r" % (k, x, y)
    return None


def pieces(data):
    """Every definition as written, whatever the order of definitions (the containers are hash tables)."""
    out = []
    for e in ET.fromstring(data):
        if e.tag in ("define-fault-tree", "model-data"):
            out += [(e.tag, e.get("name"), ET.tostring(c).strip()) for c in e]
        else:
            out.append(ET.tostring(e).strip())
    return sorted(out, key=repr)


class Check(core.BaseCheck):
    ID = "C15"
    QUICK, THOROUGH = 4000, 60000
    RULE = ("random models of 1-3 fault trees with every serialisable connective, negated and constant arguments, all three kinds of constants and exponential expressions over doubles of every magnitude, names outside ASCII, "
            "labels and attributes with markup, control and non-ASCII characters; `scram --serialize` is read by an independent reader and compared with the model that was written (exact doubles), validated against the GUI schema where "
            "it applies, serialised again after loading (same definitions, byte for byte), and analysed in both forms with random options (same report); models with anything the format writer does not support are checked to be refused; "
            "non-trivial: a document with at least two gates whose read-back was compared")
    MIN = {"distinct": 500, "roundtrips": 600, "reports_compared": 300, "labels": 300, "attributes": 300, "expressions": 2000, "exponential": 300, "constants_in_formulas": 200, "refused": 20}

    def case(self, ctx, rng, idx):
        m = Model(rng)
        text = m.xml()
        src = ctx.write("in.xml", text)
        if rng.random() < 0.05:
            return self.unsupported(ctx, rng, m, text)
        r = ctx.scram(["--serialize", src])
        if r.code != 0:
            ctx.fail("not-serialised", "exit %s: %s" % (r.code, r.err[:400].decode(errors='replace')), stop=True)
        try:
            got = read(r.out)
        except Bad as e:
            ctx.fail("bad-document", "%s" % e, stop=True)
        d = first_diff(m.canon(), got)
        if d:
            ctx.fail("altered-" + d[0], d[1], stop=True)
        ctx.count("roundtrips")
        ctx.count("labels", sum(1 for i in list(m.einfo.values()) + [m.info] if i[0]))
        ctx.count("attributes", sum(len(i[1]) for i in list(m.einfo.values()) + [m.info]))
        ctx.count("expressions", sum(e is not None for e in m.basics.values()))
        ctx.count("exponential", sum(bool(e) and e[0] == "exp" for e in m.basics.values()))
        ctx.count("constants_in_formulas", sum(any(a in (True, False) for _, a in f[2]) for f in m.gates.values()))
        ctx.sig(len(m.fts), len(m.gates), tuple(sorted(f[0] for f in m.gates.values())), len(m.basics), len(m.houses))
        if len(m.gates) > 1:
            ctx.count("nontrivial")
        ctx.sample(text)
        out = ctx.write("saved.xml", r.out)
        r2 = ctx.scram(["--serialize", out])
        if r2.code != 0:
            ctx.fail("not-reloaded", "exit %s: %s" % (r2.code, r2.err[:400].decode(errors='replace')), stop=True)
        if pieces(r2.out) != pieces(r.out):
            ctx.fail("second-save-differs", "saving the reloaded model gives a different document", stop=True)
        if rng.random() < 0.6:
            args = ["--seed", str(rng.randint(0, 999)), "--num-trials", "20", "--mission-time", repr(m.T), "--limit-order", str(rng.randint(1, 12))]
            args += rng.choice([["--bdd"], ["--zbdd"], ["--mocus"], ["--bdd", "--prime-implicants"], ["--bdd", "--rare-event"]])
            if m.complete:
                for o in ("--probability", "--importance", "--uncertainty"):
                    if rng.random() < 0.5:
                        args.append(o)
            a = ctx.scram(args + [src], timeout=30, slow_ok=True)
            b = ctx.scram(args + [out], timeout=30, slow_ok=True)
            if a.code is None or b.code is None:
                ctx.count("slow")
                return
            if a.code != b.code or (a.code and a.err.replace(b"in.xml", b"saved.xml") != b.err):
                ctx.fail("results-differ", "exit %s on the model, %s on what was saved: %s | %s" % (a.code, b.code, a.err[:200], b.err[:200]), stop=True)
            if a.code == 0:
                d = report.diff(report.flatten(report.Report(a.out)), report.flatten(report.Report(b.out)))
                if d:
                    ctx.fail("results-differ", "%s: %s" % (" ".join(args), d), stop=True)
                ctx.count("reports_compared")

    def unsupported(self, ctx, rng, m, text):
        """What cannot be written must be refused, not dropped."""
        b = list(m.basics)[0]
        g = list(m.gates)[0]
        extra = rng.choice([
            "<model-data><define-parameter name='Pq'><float value='0.1'/></define-parameter></model-data>",
            "<model-data><define-basic-event name='Bq'><uniform-deviate><float value='0.1'/><float value='0.2'/></uniform-deviate></define-basic-event></model-data>",
            "<define-alignment name='Aq'><define-phase name='q1' time-fraction='1'/></define-alignment>",
            "<define-initiating-event name='Iq'/>",
            "<define-CCF-group name='Cq' model='beta-factor'><members><basic-event name='Cq1'/><basic-event name='Cq2'/></members><distribution><float value='0.1'/></distribution><factor><float value='0.2'/></factor></define-CCF-group>",
            "<define-substitution name='Sq'><hypothesis><and><basic-event name='%s'/><basic-event name='Sq1'/></and></hypothesis><target><constant value='false'/></target></define-substitution><model-data><define-basic-event name='Sq1'/></model-data>" % b,
            "<define-fault-tree name='Fq'><define-component name='Dq'><define-gate name='Gq'><not><event name='%s'/></not></define-gate></define-component></define-fault-tree>" % b,
            "<define-fault-tree name='Fq'><define-gate name='Gq' role='private'><not><event name='%s'/></not></define-gate></define-fault-tree>" % b,
            "<define-fault-tree name='Fq'><define-gate name='Gq'><iff><event name='%s'/><event name='%s'/></iff></define-gate></define-fault-tree>" % (b, g),
            "<define-fault-tree name='Fq'><define-gate name='Gq'><imply><event name='%s'/><event name='%s'/></imply></define-gate></define-fault-tree>" % (b, g),
            "<define-fault-tree name='Fq'><define-gate name='Gq'><cardinality min='1' max='2'><event name='%s'/><event name='%s'/></cardinality></define-gate></define-fault-tree>" % (b, g),
        ])
        src = ctx.write("in.xml", text.replace("</opsa-mef>", extra + "</opsa-mef>"))
        r = ctx.scram(["--serialize", src])
        ctx.count("refused")
        ctx.sig("unsupported", extra[:40])
        if r.code == 0:
            try:
                ET.fromstring(r.out)
                lost = not any(x in r.out for x in (b"Pq", b"Bq", b"Aq", b"Iq", b"Cq", b"Sq", b"Gq"))
            except ET.ParseError:
                lost = True
            if lost:
                ctx.fail("dropped", "serialised without %s" % extra[:80])
        elif r.code != 1:
            ctx.fail("not-refused", "exit %s on %s: %s" % (r.code, extra[:80], r.err[-200:]))
