"""Mutators of model and project documents and hostile command lines."""
import copy, glob, os, re, xml.etree.ElementTree as ET
import build

EXPR0 = ["<pi/>", "<system-mission-time/>", '<float value="%s"/>', '<int value="%s"/>', '<bool value="true"/>', '<parameter name="zz"/>']
FN1 = ["neg", "not", "abs", "acos", "asin", "atan", "cos", "sin", "tan", "cosh", "sinh", "tanh", "exp", "log", "log10", "sqrt", "ceil", "floor"]
FN2 = ["df", "eq", "lt", "gt", "leq", "geq", "pow", "mod", "exponential", "uniform-deviate", "normal-deviate", "gamma-deviate", "beta-deviate"]
FNN = ["add", "sub", "mul", "div", "min", "max", "mean", "and", "or"]
FN3 = ["ite", "lognormal-deviate"]
FN4 = ["GLM", "Weibull", "periodic-test"]
EXPRS = set(FN1 + FN2 + FNN + FN3 + FN4 + ["pi", "system-mission-time", "float", "int", "bool", "parameter", "switch", "histogram", "test-initiating-event", "test-functional-event", "extern-function"])
FORMULAS = {"and", "or", "not", "xor", "nand", "nor", "iff", "imply", "atleast", "cardinality", "gate", "basic-event", "house-event", "event", "constant"}
NUMS = ["0", "1", "-1", "2", "3", "0.5", "-0.5", "1e-300", "1e300", "-1e300", "1e308", "1.7976931348623157e308", "-1.7976931348623157e308", "4.9e-324", "1e-320", "1e400", "-1e400", "nan", "NaN", "INF", "-INF", "inf",
        "infinity", "0x10", "0x1p-3", "1e", "1e+", "+1", " 1", "1 ", "", ".", "-", "1,5", "00", "-0", "-0.0", "1.0000000000000002", "0.99999999999999999999", "2147483647", "2147483648", "-2147483648", "-2147483649",
        "4294967295", "4294967296", "65535", "65536", "65537", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999", "1" * 400, "1e5", "12345678901234567890.5", "true", "false"]
NAMES = ["", " ", "a", "a.b", ".a", "a.", "a..b", "a-b", "-a", "a-", "a--b", "1a", "_a", "é", "\U0001d4d0", "a b", "x" * 300, "x" * 70000, "<", "&", "'", '"', "\n", "\t", "a\nb", "\u200b", "ａ", "%s%n", "../x", "g1", "b1", "h1", "System", "Boolean"]
UNITS = ["bool", "int", "float", "hours", "hours-1", "years", "years-1", "fit", "demands", "", "furlong"]


def rand_expr(rng, depth=3):
    if depth == 0 or rng.random() < 0.3:
        x = rng.choice(EXPR0)
        return x % rng.choice(NUMS[:22] if rng.random() < 0.8 else NUMS).replace('"', "") if "%s" in x else x
    r = rng.random()
    if r < 0.25:
        tag, n = rng.choice(FN1), 1
    elif r < 0.5:
        tag, n = rng.choice(FN2), 2
    elif r < 0.7:
        tag, n = rng.choice(FNN), rng.randint(1, 4)
    elif r < 0.78:
        tag, n = rng.choice(FN3), rng.choice([2, 3])
    elif r < 0.9:
        tag, n = rng.choice(FN4), rng.choice([4, 4, 5, 11])
    elif r < 0.95:
        return "<switch>%s%s</switch>" % ("".join("<case>%s%s</case>" % (rand_expr(rng, depth - 1), rand_expr(rng, depth - 1)) for _ in range(rng.randint(0, 3))), rand_expr(rng, depth - 1))
    else:
        return "<histogram>%s%s</histogram>" % (rand_expr(rng, 0), "".join("<bin>%s%s</bin>" % (rand_expr(rng, depth - 1), rand_expr(rng, depth - 1)) for _ in range(rng.randint(1, 4))))
    return "<%s>%s</%s>" % (tag, "".join(rand_expr(rng, depth - 1) for _ in range(n)), tag)


def rand_formula(rng, names):
    def ref():
        x = '<%s name="%s"/>' % (rng.choice(["gate", "basic-event", "house-event", "event"]), rng.choice(names))
        if rng.random() < 0.1:
            x = '<constant value="%s"/>' % rng.choice(["true", "false"])
        return "<not>%s</not>" % x if rng.random() < 0.3 else x
    op = rng.choice(["and", "or", "xor", "nand", "nor", "iff", "imply", "atleast", "cardinality", "not", ""])
    n = rng.choice([0, 1, 2, 2, 3, 3, 4, 8])
    if op in ("xor", "iff", "imply") and rng.random() < 0.7:
        n = 2
    if op in ("not", ""):
        n = 1
    at = ""
    if op == "atleast":
        at = ' min="%s"' % rng.choice(["2", "2", "3", "1", "0", "-1", "65536"])
    if op == "cardinality":
        at = ' min="%s" max="%s"' % (rng.choice(["0", "1", "2", "3", "-1"]), rng.choice(["0", "1", "2", "3", "8"]))
    inner = "".join(ref() for _ in range(n))
    return "<%s%s>%s</%s>" % (op, at, inner, op) if op else inner


_corpus = []


def corpus():
    """The bundled models (sources of structure only; nothing is expected of them)."""
    if not _corpus:
        fs = sorted(glob.glob(build.REPO + "/input/**/*.xml", recursive=True) + glob.glob(build.REPO + "/tests/input/**/*.xml", recursive=True))
        for f in fs:
            try:
                if os.path.getsize(f) < 20000:
                    with open(f, "rb") as h:
                        _corpus.append((os.path.relpath(f, build.REPO), h.read()))
            except OSError:
                pass
    return _corpus


def mutate_tree(root, rng, donors, n):
    """In-place structural mutations; the ops used are returned."""
    ops = []
    for _ in range(n):
        els = list(root.iter())
        parent = {c: p for p in els for c in p}
        if len(els) < 2:
            break
        op = rng.choice(["num", "num", "num", "ref", "ref", "expr", "expr", "formula", "formula", "del", "dup", "move", "swap", "tag", "attr", "graft", "wrap", "name", "text", "many", "unit", "unattr", "hide"])
        if op in ("num", "unit"):
            c = [(e, k) for e in els for k in e.attrib if (k == "unit" if op == "unit" else re.match(r"^[-+]?[\d.]|^(true|false)$", e.get(k) or ""))]
            if not c:
                continue
            e, k = rng.choice(c)
            e.set(k, rng.choice(UNITS if op == "unit" else NUMS[:17] if rng.random() < 0.7 else NUMS))
        elif op == "ref":  # Another existing name: cycles, wrong kinds, clashes.
            c = [e for e in els if e.get("name")]
            if len(c) < 2:
                continue
            a, b = rng.sample(c, 2)
            a.set("name", b.get("name"))
        elif op == "expr":
            c = [e for e in els[1:] if e.tag in EXPRS and parent[e].tag not in FORMULAS]
            if not c:
                continue
            e = rng.choice(c)
            try:
                x = ET.fromstring(rand_expr(rng, rng.randint(1, 4)))
            except ET.ParseError:
                continue
            p = parent[e]
            i = list(p).index(e)
            p.remove(e)
            p.insert(i, x)
        elif op == "formula":
            c = [e for e in els if e.tag == "define-gate" and len(e)]
            names = [e.get("name") for e in els if e.tag in ("define-gate", "define-basic-event", "define-house-event", "basic-event", "house-event", "gate") and re.match(r"^[\w.-]+$", e.get("name") or "")]
            if not c or not names:
                continue
            g = rng.choice(c)
            try:
                x = ET.fromstring(rand_formula(rng, names))
            except ET.ParseError:
                continue
            for y in [y for y in g if y.tag in FORMULAS]:
                g.remove(y)
            g.append(x)
        elif op == "del":
            e = rng.choice(els[1:])
            parent[e].remove(e)
        elif op == "dup":
            e = rng.choice(els[1:])
            c = copy.deepcopy(e)
            if rng.random() < 0.5 and c.get("name"):
                c.set("name", c.get("name") + "x")
            parent[e].insert(list(parent[e]).index(e), c)
        elif op == "many":
            e = rng.choice(els[1:])
            if sum(1 for _ in e.iter()) < 40:
                for _ in range(rng.choice([3, 20, 100])):
                    parent[e].append(copy.deepcopy(e))
        elif op == "move":
            e = rng.choice(els[1:])
            inside = set(e.iter())
            t = rng.choice([x for x in els if x not in inside] or [root])
            parent[e].remove(e)
            t.insert(rng.randint(0, len(t)), e)
        elif op == "swap":
            a = rng.choice(els[1:])
            c = [b for b in els[1:] if b.tag == a.tag and b is not a] if rng.random() < 0.8 else els[1:]
            if not c:
                continue
            b = rng.choice(c)
            if b in set(a.iter()) or a in set(b.iter()):
                continue
            ca, cb = copy.deepcopy(a), copy.deepcopy(b)
            for x, y in ((a, cb), (b, ca)):
                p = parent[x]
                i = list(p).index(x)
                p.remove(x)
                p.insert(i, y)
        elif op == "tag":
            e = rng.choice(els)
            t = rng.choice(els).tag if rng.random() < 0.5 else rng.choice(sorted(FORMULAS if e.tag in FORMULAS else EXPRS))
            e.tag = t
        elif op == "attr":
            e = rng.choice(els)
            f = rng.choice(els)
            if f.attrib:
                k = rng.choice(sorted(f.attrib))
                e.set(k, f.get(k))
        elif op == "unattr":
            c = [e for e in els if e.attrib]
            if c:
                e = rng.choice(c)
                del e.attrib[rng.choice(sorted(e.attrib))]
        elif op == "name":
            c = [(e, k) for e in els for k in e.attrib]
            if c:
                e, k = rng.choice(c)
                e.set(k, rng.choice(NAMES))
        elif op == "text":
            e = rng.choice(els)
            e.text = rng.choice(["x", " ", "\n", "&", "]]>", "x" * 5000, "\u2028"])
        elif op == "graft":
            d = rng.choice(donors)
            c = list(d.iter())[1:]
            if c:
                x = copy.deepcopy(rng.choice(c))
                same = [e for e in els[1:] if e.tag == x.tag]
                if same and rng.random() < 0.8:
                    e = rng.choice(same)
                    p = parent[e]
                    p.insert(list(p).index(e), x)
                else:
                    rng.choice(els).append(x)
        elif op == "wrap":
            e = rng.choice(els[1:])
            p = parent[e]
            w = ET.Element(rng.choice([p.tag, e.tag, "not", "block", "neg", "abs", "model-data", "define-component"]))
            if w.tag == "define-component":
                w.set("name", "zzc")
            i = list(p).index(e)
            p.remove(e)
            w.append(e)
            p.insert(i, w)
        elif op == "hide":
            c = [e for e in els if e.tag.startswith("define-")]
            if c:
                rng.choice(c).set("role", rng.choice(["private", "public", "", "x"]))
        ops.append(op)
    return ops


def mutate_bytes(b, rng, n):
    b = bytearray(b)
    for _ in range(n):
        if not b:
            break
        op = rng.randrange(9)
        i = rng.randrange(len(b))
        if op == 0:
            b[i] = rng.randrange(256)
        elif op == 1:
            del b[i:i + rng.choice([1, 2, 10, 200])]
        elif op == 2:
            b[i:i] = bytes(rng.randrange(256) for _ in range(rng.choice([1, 4, 30])))
        elif op == 3:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.choice([3, 30, 300])]
        elif op == 4:
            del b[i:]
        elif op == 5:
            b[i:i] = rng.choice([b"<", b">", b"&", b"&#0;", b"&#x10ffff;", b"&amp;", b"<!--", b"-->", b"<![CDATA[", b"]]>", b"<?x?>", b"\0", b"\xff\xfe", b"\xef\xbb\xbf", b"\"", b"'", b"&lol;", b"<!DOCTYPE a [<!ENTITY x 'y'>]>"])
        elif op == 6:
            m = list(re.finditer(rb'"[^"]*"', bytes(b)))
            if m:
                x = rng.choice(m)
                b[x.start():x.end()] = b'"%s"' % rng.choice(NUMS + NAMES).encode()
        elif op == 7:
            m = list(re.finditer(rb"<[^>]*>", bytes(b)))
            if m:
                x, y = rng.choice(m), rng.choice(m)
                b[x.start():x.end()] = y.group(0)
        else:
            b[i] ^= 1 << rng.randrange(8)
    return bytes(b)


def special(rng, write, d):
    """(name, input files): documents aimed at particular mechanisms."""
    k = rng.choice(["chain", "chain-param", "component", "nest-expr", "wide", "lol", "extent", "xinclude", "encoding", "empty", "dir", "missing", "twice", "link", "long-name", "many-attr", "fork", "branch-chain", "chain-et", "switch-wide",
                    "cycle", "huge-vote", "link-self", "rule-cycle", "ccf", "ccf", "ccf", "align", "pi", "attr-edge", "xi-text"])
    head = '<?xml version="1.0"?>\n<opsa-mef>%s</opsa-mef>'
    p = None
    if k == "chain":
        n = rng.choice([10, 300, 2000])
        gs = ['<define-gate name="g%d"><%s><gate name="g%d"/><basic-event name="b%d"/></%s></define-gate>' % (i, o, i + 1, i % 7, o) for i in range(n) for o in [rng.choice(["and", "or"])]]
        end = rng.choice(['<basic-event name="b0"/>', '<gate name="g0"/>', '<gate name="g%d"/>' % (n // 2)])
        gs.append('<define-gate name="g%d">%s</define-gate>' % (n, end))
        if rng.random() < 0.5:
            gs.reverse()
        p = head % ('<define-fault-tree name="f">%s</define-fault-tree>' % "".join(gs))
    elif k == "chain-param":
        n = rng.choice([10, 300, 2000])
        ps = ['<define-parameter name="p%d"><%s><parameter name="p%d"/></%s></define-parameter>' % (i, o, i + 1, o) for i in range(n) for o in [rng.choice(["neg", "abs", "add"])]]
        ps = [x.replace("</add>", '<float value="0"/></add>') for x in ps]
        ps.append('<define-parameter name="p%d">%s</define-parameter>' % (n, rng.choice(['<float value="0.1"/>', '<parameter name="p0"/>'])))
        p = head % ('<define-fault-tree name="f"><define-gate name="g"><basic-event name="b"/></define-gate><define-basic-event name="b"><parameter name="p0"/></define-basic-event></define-fault-tree><model-data>%s</model-data>' % "".join(ps))
    elif k == "component":
        n = rng.choice([5, 50, 200, 400])
        p = head % ('<define-fault-tree name="f">%s<define-gate name="g"><basic-event name="b"/></define-gate>%s</define-fault-tree>' % ("".join('<define-component name="c%d">' % i for i in range(n)), "</define-component>" * n))
    elif k == "nest-expr":
        n = rng.choice([5, 100, 240, 300, 2000])
        p = head % ('<define-fault-tree name="f"><define-gate name="g"><basic-event name="b"/></define-gate><define-basic-event name="b">%s<float value="0.1"/>%s</define-basic-event></define-fault-tree>' % ("<neg>" * n, "</neg>" * n))
    elif k == "wide":
        n = rng.choice([100, 2000, 20000])
        o = rng.choice(['and', 'or', 'atleast min="2"', 'nand', 'atleast min="%d"' % (n - 1)])
        p = head % ('<define-fault-tree name="f"><define-gate name="g"><%s>%s</%s></define-gate></define-fault-tree>' % (o, "".join('<basic-event name="b%d"/>' % i for i in range(n)), o.split()[0]))
    elif k == "huge-vote":
        n = rng.choice([5, 12, 30])
        p = head % ('<define-fault-tree name="f"><define-gate name="g"><%s>%s</%s></define-gate></define-fault-tree>' % (
            "cardinality min='%d' max='%d'" % (rng.randint(0, n), rng.randint(0, n + 2)), "".join('<basic-event name="b%d"/>' % i for i in range(n)), "cardinality"))
    elif k == "lol":
        ents = '<!ENTITY a0 "<basic-event name=\'b\'/>">' + "".join('<!ENTITY a%d "%s">' % (i, ("&a%d;" % (i - 1)) * 10) for i in range(1, rng.choice([2, 4, 9])))
        p = '<?xml version="1.0"?>\n<!DOCTYPE opsa-mef [%s]>\n<opsa-mef><define-fault-tree name="f"><define-gate name="g"><or>&a%d;</or></define-gate></define-fault-tree></opsa-mef>' % (ents, ents.count("ENTITY") - 1)
    elif k == "extent":
        write("e.txt", '<define-fault-tree name="f"><define-gate name="g"><basic-event name="b"/></define-gate></define-fault-tree>')
        p = '<?xml version="1.0"?>\n<!DOCTYPE opsa-mef [<!ENTITY e SYSTEM "%s">]>\n<opsa-mef>&e;</opsa-mef>' % rng.choice(["e.txt", "nofile", ".", "m.xml", "http://127.0.0.1:9/x"])
    elif k in ("xinclude", "xi-text"):
        write("i.xml", head % '<define-fault-tree name="i"><define-gate name="g"><basic-event name="b"/></define-gate></define-fault-tree>')
        href = rng.choice(["i.xml", "m.xml", "nofile.xml", ".", "", "i.xml#xpointer(/opsa-mef/*)", "http://127.0.0.1:9/x"])
        xp = rng.choice(["", " xpointer='xpointer(/opsa-mef/*)'", " xpointer='element(/1/1)'", " xpointer='bad('"])
        par = " parse='text'" if k == "xi-text" else ""
        where = '<xi:include href="%s"%s%s>%s</xi:include>' % (href, par, xp, rng.choice(["", "<xi:fallback/>", '<xi:fallback><define-fault-tree name="z"><define-gate name="g"><basic-event name="b"/></define-gate></define-fault-tree></xi:fallback>']))
        p = '<?xml version="1.0"?>\n<opsa-mef xmlns:xi="http://www.w3.org/2001/XInclude">%s</opsa-mef>' % (where if rng.random() < 0.6 else '<model-data>%s</model-data>' % where)
    elif k == "encoding":
        body = '<opsa-mef><define-fault-tree name="f"><define-gate name="gé"><basic-event name="b"/></define-gate></define-fault-tree></opsa-mef>'
        enc, dec = rng.choice(["utf-8", "utf-16", "latin-1", "utf-16-le", "utf-32"]), rng.choice(["UTF-8", "UTF-16", "ISO-8859-1", "bogus", "UTF-7", "EBCDIC-US"])
        p = ('<?xml version="1.0" encoding="%s"?>\n%s' % (dec, body)).encode(enc)
    elif k == "empty":
        p = rng.choice(["", " ", "\n", '<?xml version="1.0"?>', "<opsa-mef/>", "<opsa-mef></opsa-mef>", "\0", "\ufeff", "<a/>", '<opsa-mef name=""/>', '<opsa-mef><label/></opsa-mef>', "x" * 100000, "<" * 100000])
    elif k == "attr-edge":
        at = "".join('<attribute name="%s" value="%s"%s/>' % (rng.choice(["", " ", "a", "a", "b"]), rng.choice(["", " ", "v"]), rng.choice(["", ' type=""', ' type="t"'])) for _ in range(rng.randint(1, 3)))
        p = head % ('<define-fault-tree name="f"><define-gate name="g"><label>%s</label><attributes>%s</attributes><basic-event name="b"/></define-gate></define-fault-tree>' % (rng.choice(["", " ", "x", "\n \n"]), at))
    elif k == "long-name":
        n = "n" * rng.choice([255, 256, 5000, 200000])
        p = head % ('<define-fault-tree name="%s"><define-gate name="%s"><basic-event name="%sb"/></define-gate></define-fault-tree>' % (n, n, n))
    elif k == "many-attr":
        p = head % ('<define-fault-tree name="f"><define-gate name="g"><attributes>%s</attributes><basic-event name="b"/></define-gate></define-fault-tree>' % "".join('<attribute name="a%d" value="v"/>' % i for i in range(rng.choice([10, 3000]))))
    elif k in ("fork", "branch-chain", "chain-et", "rule-cycle"):
        n = rng.choice([2, 8, 30, 1000 if k != "fork" else 10])
        fes = "".join('<define-functional-event name="F%d"/>' % i for i in range(n))
        if k == "fork":
            t = '<sequence name="S"/>'
            for i in reversed(range(min(n, 100))):
                t = '<fork functional-event="F%d"><path state="w">%s</path><path state="f">%s</path></fork>' % (rng.choice([i, i, i, 0]), t if i < 8 or rng.random() < 0.5 else '<sequence name="S"/>', '<sequence name="S"/>')
            body = fes + '<define-sequence name="S"/><initial-state>%s</initial-state>' % t
        elif k == "branch-chain":
            end = rng.choice(['<sequence name="S"/>', '<branch name="B0"/>'])
            body = fes + '<define-sequence name="S"/>' + "".join('<define-branch name="B%d"><branch name="B%d"/></define-branch>' % (i, i + 1) for i in range(n)) + '<define-branch name="B%d">%s</define-branch><initial-state><branch name="B0"/></initial-state>' % (n, end)
        elif k == "rule-cycle":
            p = head % ("".join('<define-rule name="R%d"><rule name="R%d"/></define-rule>' % (i, i + 1) for i in range(n)) + '<define-rule name="R%d">%s</define-rule>' % (n, rng.choice(['<rule name="R0"/>', '<set-house-event name="h"><constant value="true"/></set-house-event>']))
                        + '<define-event-tree name="E"><define-sequence name="S"/><initial-state><rule name="R0"/><sequence name="S"/></initial-state></define-event-tree><define-initiating-event name="I" event-tree="E"/>'
                        + '<model-data><define-house-event name="h"/></model-data>')
            body = None
        else:
            body = None
            p = head % ("".join('<define-event-tree name="E%d"><define-sequence name="S%d">%s</define-sequence><initial-state><sequence name="S%d"/></initial-state></define-event-tree>' % (
                i, i, '<event-tree name="E%d"/>' % ((i + 1) % n if rng.random() < 0.01 or i < n - 1 else i) if i < n - 1 or rng.random() < 0.5 else "", i) for i in range(n)) + '<define-initiating-event name="I" event-tree="E0"/>')
        if p is None:
            p = head % ('<define-event-tree name="E">%s</define-event-tree><define-initiating-event name="I" event-tree="E"/>' % body)
    elif k == "switch-wide":
        p = head % ('<define-fault-tree name="f"><define-gate name="g"><basic-event name="b"/></define-gate><define-basic-event name="b"><switch>%s<float value="0.1"/></switch></define-basic-event></define-fault-tree>' % ('<case><bool value="false"/><float value="0.5"/></case>' * rng.choice([1, 500])))
    elif k == "cycle":
        n = rng.choice([1, 2, 50])
        p = head % ('<define-fault-tree name="f">%s</define-fault-tree>' % "".join('<define-gate name="g%d"><%s><gate name="g%d"/><basic-event name="b"/></%s></define-gate>' % (i, o, (i + 1) % n, o) for i in range(n) for o in [rng.choice(["or", "and", "xor"])]))
    elif k == "ccf":
        n = rng.choice([2, 3, 6, 9])
        model = rng.choice(["beta-factor", "MGL", "alpha-factor", "phi-factor"])
        lv = [n] if model == "beta-factor" else list(range(2 if model == "MGL" else 1, n + 1))[:rng.choice([1, n, n])]
        for _ in range(rng.choice([0, 1, 1, 2])):  # Levels below, above, between, repeated and out of order.
            i, v = rng.randrange(len(lv) + 1), rng.choice([1, 1, 2, 3, n, n + 1, 0, -1, 70000, lv[0]])
            lv[i:i + rng.choice([0, 1])] = [v]
        if rng.random() < 0.2:
            rng.shuffle(lv)
        fac = "".join('<factor level="%s"><float value="%s"/></factor>' % (l, rng.choice(["0.1", "0.2", "1", "0", "-1", "1.5"])) for l in lv)
        if rng.random() < 0.2:
            fac = fac.replace("level", "lvl", 1)
        if rng.random() < 0.3:
            fac = '<factor><float value="0.1"/></factor>'
        p = head % ('<define-fault-tree name="f"><define-gate name="g"><%s>%s</%s></define-gate><define-CCF-group name="c" model="%s"><members>%s</members><distribution>%s</distribution>%s</define-CCF-group></define-fault-tree>' % (
            "or", "".join('<basic-event name="b%d"/>' % i for i in range(n)), "or", model, "".join('<basic-event name="b%d"/>' % i for i in range(n)), '<float value="%s"/>' % rng.choice(["0.1", "0", "1", "2", "1e-300"]),
            fac if rng.random() < 0.15 else "<factors>%s</factors>" % fac))
    elif k == "align":
        ph = "".join('<define-phase name="p%d" time-fraction="%s">%s</define-phase>' % (i, rng.choice(["0.5", "0.5", "1", "0.25", "0", "1e-300", "-1", "nan"]), rng.choice(["", '<set-house-event name="h"><constant value="true"/></set-house-event>', '<set-house-event name="x"><constant value="true"/></set-house-event>'])) for i in range(rng.randint(1, 3)))
        p = head % ('<define-fault-tree name="f"><define-gate name="g"><or><basic-event name="b"/><house-event name="h"/></or></define-gate><define-house-event name="h"><constant value="false"/></define-house-event></define-fault-tree><define-alignment name="a">%s</define-alignment>' % ph)
    elif k == "pi":
        p = '<?xml version="1.0"?><?xml-stylesheet href="x"?><!-- c --><opsa-mef><!-- c --><?pi?><define-fault-tree name="f"><!-- c --><define-gate name="g"><?pi?><!-- c --><basic-event name="b"/><!-- c --></define-gate></define-fault-tree></opsa-mef><!-- c -->'
    if p is not None:
        if isinstance(p, str) and rng.random() < 0.9:  # Otherwise every event is undefined.
            names = sorted(set(re.findall(r'<basic-event name="(\w+)"', p)) - set(re.findall(r'<define-basic-event name="(\w+)"', p)))
            p = p.replace("</opsa-mef>", "<model-data>%s</model-data></opsa-mef>" % "".join('<define-basic-event name="%s">%s</define-basic-event>' % (
                n, '<float value="0.1"/>' if rng.random() < 0.9 and k != "ccf" else "") for n in names)) if names and k not in ("encoding",) and "<members>" not in p else p
        return k, [write("m.xml", p)]
    good = head % '<define-fault-tree name="f"><define-gate name="g"><basic-event name="b"/></define-gate></define-fault-tree>'
    if k == "dir":
        os.makedirs(os.path.join(d, "dd"), exist_ok=True)
        return k, [rng.choice(["dd", "dd/", "."])]
    if k == "missing":
        return k, [rng.choice(["nofile", "no/such/file", "", "m.xml/x", "x" * 300, "x" * 5000])]
    write("m.xml", good)
    if k == "twice":
        return k, [rng.choice(["m.xml", "./m.xml"]), "m.xml"]
    if k == "link":
        os.symlink("m.xml", os.path.join(d, "l.xml"))
        return k, ["l.xml"] + (["m.xml"] if rng.random() < 0.5 else [])
    os.symlink("l2.xml", os.path.join(d, "l2.xml"))
    return k, ["l2.xml"]


OPTS = {"--limit-order": 1, "-l": 1, "--cut-off": 1, "--mission-time": 1, "--time-step": 1, "--num-trials": 1, "--num-quantiles": 1, "--num-bins": 1, "--seed": 1, "--verbosity": 1}
DEEP = ("gate", "parameter", "expression")


def deep(kind, n):
    """A valid document whose definitions nest n levels deep."""
    h = '<?xml version="1.0"?>\n<opsa-mef>%s</opsa-mef>'
    b = '<define-basic-event name="b"><float value="0.1"/></define-basic-event>'
    if kind == "gate":
        gs = "".join('<define-gate name="g%d"><%s><gate name="g%d"/><basic-event name="b%d"/></%s></define-gate><define-basic-event name="b%d"/>' % (i, o, i + 1, i, o, i) for i in range(n) for o in [("and", "or")[i % 2]])
        return h % ('<define-fault-tree name="f">%s<define-gate name="g%d"><basic-event name="b"/></define-gate>%s</define-fault-tree>' % (gs, n, b))
    if kind == "parameter":
        ps = "".join('<define-parameter name="p%d"><neg><parameter name="p%d"/></neg></define-parameter>' % (i, i + 1) for i in range(n))
        return h % ('<define-fault-tree name="f"><define-gate name="g"><basic-event name="b"/></define-gate><define-basic-event name="b"><parameter name="p0"/></define-basic-event></define-fault-tree><model-data>%s<define-parameter name="p%d"><float value="0.1"/></define-parameter></model-data>' % (ps, n))
    return h % ('<define-fault-tree name="f"><define-gate name="g"><basic-event name="b"/></define-gate><define-basic-event name="b">%s<float value="0.1"/>%s</define-basic-event></define-fault-tree>' % ("<neg>" * n, "</neg>" * n))


FLAGS = ["--validate", "--bdd", "--zbdd", "--mocus", "--prime-implicants", "--probability", "--importance", "--uncertainty", "--ccf", "--sil", "--rare-event", "--mcub", "--no-indent", "--preprocessor", "--print", "--no-report", "--serialize",
         "--help", "--version"]


def moderate(o, v):
    """Keeps requests for gigantic (but legitimate) amounts of work out."""
    try:
        x = float(v)
    except ValueError:
        return True
    if o in ("--num-trials", "--num-quantiles", "--num-bins"):
        return not 20000 < x < 2147483648
    if o in ("--limit-order", "-l"):
        return True
    return True


def hostile_cli(rng, n):
    a, mission, step = [], 8760.0, 0.0
    for _ in range(n):
        r = rng.random()
        if r < 0.5:
            o = rng.choice(sorted(OPTS))
            v = rng.choice(NUMS)
            if not moderate(o, v):
                continue
            try:
                x = float(v)
            except ValueError:
                x = None
            if o == "--mission-time" and x is not None:
                mission = x
            if o == "--time-step" and x is not None:
                step = x
            a += [o + "=" + v] if rng.random() < 0.3 and o != "-l" else [o, v]
        elif r < 0.85:
            a.append(rng.choice(FLAGS))
        elif r < 0.92:
            a.append(rng.choice(FLAGS + sorted(OPTS))[:rng.randint(3, 9)])
        else:
            a.append(rng.choice(["--", "-", "--x", "-x", "--=", "-o", "--output", "--project", "-l", "", " ", "--bdd=1", "-lx", "-l3", "\u00e9", "--\u00e9", "-oq/w", "--limit-order=", "%s%n", "--project=nofile", "-ot.xml", "x" * 5000]))
    ratio = abs(mission / step) if step else 0
    if step and not ratio <= 5000:
        a = [x for x in a if not x.startswith("--time-step")]
        a = [x for i, x in enumerate(a)]
    return a
