"""The fault tree generator: every emitted document against the factors asked for."""
import math, os, re, shutil, subprocess
import xml.etree.ElementTree as ET
import core, build

OPS = ["and", "or", "atleast", "not", "xor"]
REPO = os.environ.get("VERIF_REPO", "/repo")
SCRIPT = os.path.join(REPO, "scripts", "fault_tree_generator.py")
PYTHON = shutil.which("python3", path="/usr/bin:/usr/local/bin") or "python3"


class Bad(Exception):
    pass


def need(c, what):
    if not c:
        raise Bad(what)


class Doc:
    """A tree: gates {name: (op, k, frozenset(args))}, args as (kind, name)."""

    def __init__(self):
        self.name, self.gates, self.order, self.basics, self.houses, self.ccfs = None, {}, [], {}, {}, []
        self.nested = 0

    def canon(self):
        return (self.name, {g: (o, k, frozenset(a)) for g, (o, k, a) in self.gates.items()}, self.basics, self.houses,
                [(n, tuple(m), p, tuple(f)) for n, m, p, f in self.ccfs])


def parse_xml(text):
    d = Doc()
    root = ET.fromstring(text)
    need(root.tag == "opsa-mef", "root element")
    ft = root.findall("define-fault-tree")
    need(len(ft) == 1, "one fault tree")
    d.name = ft[0].get("name")

    def formula(el):
        op = el.tag
        need(op in OPS, "connective %s" % op)
        k = None
        if op == "atleast":
            k = int(el.get("min"))
        args = []
        for a in el:
            if a.tag == "not":
                d.nested += 1
                args.append(("formula", formula(a)))
            else:
                need(a.tag in ("gate", "basic-event", "house-event"), "argument %s" % a.tag)
                args.append((a.tag, a.get("name")))
        return op, k, args

    for el in ft[0]:
        n = el.get("name")
        if el.tag == "define-gate":
            need(n not in d.gates, "gate %s defined twice" % n)
            need(len(el) == 1, "one formula in %s" % n)
            d.gates[n] = formula(el[0])
            d.order.append(n)
        elif el.tag == "define-CCF-group":
            need(el.get("model") == "MGL", "CCF model")
            mem = [x.get("name") for x in el.find("members")]
            p = float(el.find("distribution")[0].get("value"))
            lv = [int(x.get("level")) for x in el.find("factors")]
            need(lv == list(range(2, 2 + len(lv))), "CCF levels %s" % lv)
            d.ccfs.append((n, mem, p, [float(x[0].get("value")) for x in el.find("factors")]))
        else:
            need(False, "element %s in the fault tree" % el.tag)
    md = root.findall("model-data")
    need(len(md) == 1, "one model-data")
    for el in md[0]:
        n = el.get("name")
        if el.tag == "define-basic-event":
            need(n not in d.basics, "basic event %s defined twice" % n)
            d.basics[n] = float(el.find("float").get("value"))
        elif el.tag == "define-house-event":
            need(n not in d.houses, "house event %s defined twice" % n)
            d.houses[n] = el.find("constant").get("value")
        else:
            need(False, "element %s in model-data" % el.tag)
    return d


def parse_aralia(text):
    d = Doc()
    lines = [x for x in text.split("\n") if x.strip()]
    d.name = lines[0]
    kind = {}
    raw = {}
    for ln in lines[1:]:
        m = re.fullmatch(r"p\((\S+)\) = (\S+)", ln)
        if m:
            need(m.group(1) not in d.basics, "twice " + ln)
            d.basics[m.group(1)] = float(m.group(2))
            kind[m.group(1)] = "basic-event"
            continue
        m = re.fullmatch(r"s\((\S+)\) = (true|false)", ln)
        if m:
            need(m.group(1) not in d.houses, "twice " + ln)
            d.houses[m.group(1)] = m.group(2)
            kind[m.group(1)] = "house-event"
            continue
        m = re.fullmatch(r"(\S+) := (.*)", ln)
        need(m, "line %r" % ln)
        g, f = m.groups()
        need(g not in raw, "gate %s twice" % g)
        kind[g] = "gate"
        m = re.fullmatch(r"@\((\d+), \[(.*)\]\)", f)
        if m:
            raw[g] = ("atleast", int(m.group(1)), m.group(2).split(", "))
        elif f.startswith("~("):
            raw[g] = ("not", None, [f[2:-1]])
        else:
            need(f[0] == "(" and f[-1] == ")", "formula %r" % f)
            f = f[1:-1]
            op = {"&": "and", "|": "or", "^": "xor"}
            used = set(re.findall(r" ([&|^]) ", f))
            need(len(used) == 1, "formula %r" % f)
            u = used.pop()
            raw[g] = (op[u], None, f.split(" %s " % u))
        d.order.append(g)
    for g, (o, k, a) in raw.items():
        for x in a:
            need(x in kind, "undefined %s" % x)
        d.gates[g] = (o, k, [(kind[x], x) for x in a])
    return d


def summary(text):
    out = []
    for c in re.findall(r"<!--(.*?)-->", text, re.S):
        out.append(dict((k.strip(), v.strip()) for k, _, v in (ln.rpartition(": ") for ln in c.split("\n")) if k))
    return out


def pyround1(x):
    return round(x, 1)


class Factors:
    """Factor sets drawn here; `feasible` says whether the documented constraints surely hold."""

    def __init__(self, rng, size=None):
        r = rng
        self.b = size or r.choice([4, 5, 6, 8, 10, 15, 20, 30, 50, 80, 120, 200, 300])
        self.a = r.choice([2.0, 2.2, 2.5, 3.0, 3.0, 3.0, 3.7, 4, 5, 6.5, 10])
        self.w = r.choice([[1, 1], [1, 1], [1], [0, 1], [0, 0, 1], [1, 1, 1], [1, 1, 1, 1], [1, 1, 0, 1], [2, 1, .5, .1, 3], [1, 1, 1, .5, .5],
                           [1, 2, 0, 0, 1], [5, 1, 0, 2], [0.001, 1, 0.2]])
        self.cb = r.choice([.1, .1, .01, .3, .5, .7, .9])
        self.cg = r.choice([.1, .1, .01, .3, .5, .9])
        self.pb = r.choice([2, 2, 3, 2.5, 5.5, 20, 100])
        self.pg = r.choice([2, 2, 3, 2.5, 5.5, 20, 100])
        self.g = 0
        if r.random() < .25:
            self.g = r.choice([1, 2, self.b // 3 + 1, self.b // 2 + 1, self.b, 2 * self.b, 3 * self.b])
        self.house = r.choice([0, 0, 1, 2, 5, self.b // 2, self.b - 1]) if r.random() < .5 else 0
        self.house = min(self.house, self.b - 1)
        self.ccf = r.choice([0, 1, 2, int(self.b / self.a / 2), int(self.b / self.a)]) if r.random() < .6 and self.a <= 5 else 0  # Large groups expand exponentially.
        self.ccf = min(self.ccf, int(self.b / self.a))
        lo, hi = sorted([r.choice([0, 1e-9, 1e-5, .01, .1, .5, r.random()]), r.choice([.1, .2, 1, r.random()])])
        self.lo, self.hi = (lo, hi) if r.random() < .6 else (.01, .1)
        self.ft = r.choice(["Autogenerated", "my-tree", "X_1", "a"])
        self.root = r.choice(["root", "top-event", "R0", "Zeta_2"])
        self.seed = r.choice([0, 1, 123, -5, 10**12, r.randint(0, 10**6)])

    def args(self):
        f = lambda x: repr(x) if x != int(x) else str(int(x))
        return ["--ft-name", self.ft, "--root", self.root, "--seed", str(self.seed), "-b", str(self.b), "-a", f(self.a),
                "--weights-g"] + [f(x) for x in self.w] + [
                "--common-b", f(self.cb), "--common-g", f(self.cg), "--parents-b", f(self.pb), "--parents-g", f(self.pg),
                "--max-prob", repr(self.hi), "--min-prob", repr(self.lo), "--num-house", str(self.house), "--num-ccf", str(self.ccf)] + (
                ["-g", str(self.g)] if self.g else [])

    def weights(self):
        w = list(self.w) + [0] * (5 - len(self.w))
        return [x / sum(w) for x in w]

    def max_args(self):
        w = self.weights()
        return (2 * self.a - sum(x * y for x, y in zip((2, 2, 3), w)) - 2 * (w[3] + 2 * w[4])) / sum(w[:3])

    def feasible(self):
        """Room for every gate's arguments, and more than one new node per gate."""
        need_b = 2 * max(self.max_args(), 3)
        if self.b < need_b:
            return False
        if self.g:
            alpha = self.g / self.b
            mc = 1 - (1 + alpha) / self.a / alpha
            return 0.02 < mc < 0.84 and max(self.cb, self.cg) < 0.9
        gf = 1 - self.cg + self.cg / self.pg
        return self.a * gf - 1 >= 0.1


def bad_args(rng):
    """One factor outside of its documented range: (arguments, what)."""
    r = rng
    base = {"-b": "50", "-a": "3", "--common-b": "0.1", "--common-g": "0.1", "--parents-b": "2", "--parents-g": "2",
            "--max-prob": "0.1", "--min-prob": "0.01", "--num-house": "0", "--num-ccf": "0", "--weights-g": "1 1"}
    opts = [("-b", ["0", "-1", "-100"]), ("-a", ["1.99", "0", "-3", "nan", "1", "inf"]),
            ("--common-b", ["0", "-0.1", "0.91", "1", "nan", "inf"]), ("--common-g", ["0", "-0.1", "0.91", "1", "nan", "2"]),
            ("--parents-b", ["1.99", "0", "-2", "100.5", "nan", "inf", "1"]), ("--parents-g", ["1.99", "0", "-2", "100.5", "nan", "inf", "1"]),
            ("--max-prob", ["1.01", "-0.1", "nan", "0.001", "inf", "2"]), ("--min-prob", ["-0.01", "1.5", "nan", "0.2", "-inf"]),
            ("--num-house", ["-1", "50", "51", "1000"]), ("--num-ccf", ["-1", "17", "50"]),
            ("--weights-g", ["0", "0 0 0", "1 -1", "1 1 1 1 1 1", "0 0 0 1", "0 0 0 1 1", "nan", "1 nan", "0 0 0 0 1", "inf", "-1"]),
            ("-g", ["-1", "1", "16", "5"])]
    opt, vals = r.choice(opts)
    v = r.choice(vals)
    base[opt] = v
    out = []
    for k, x in base.items():
        if k == "--weights-g" or not x.startswith("-"):
            out += [k] + x.split(" ")
        else:
            out.append(k + "=" + x if k.startswith("--") else k + x)
    return out, "%s %s" % (opt, v)


class Check(core.BaseCheck):
    ID = "C26"
    QUICK, THOROUGH = 700, 8000
    RULE = ("an unacceptable factor is refused without a document; otherwise the document has the requested names, counts, bounds, gate types and arities, "
            "is connected, acyclic and topologically sorted, agrees with its summary, with a second run, with the Aralia and the nested output, and scram accepts it")
    MIN = {"accepted": 200, "refused": 100, "scram_accepts": 200, "aralia_equal": 150, "nested_equal": 40, "summary_fields": 3000, "statistics": 5}
    ASSUMPTIONS = ["names given are legal identifiers not of the generated form (G#, B#, H#, CCF#)",
                   "averages are compared on trees of several thousand basic events only, with wide margins",
                   "combinations the documentation calls over-constrained may be refused with a factor error"]

    def build(self):
        return build.build_core("asan")

    def gen(self, ctx, args, timeout=60):
        ctx.cmds.append(["generator"] + args)
        ctx.count("generator_runs")
        for t in (timeout, timeout * 3):
            try:
                p = subprocess.run([PYTHON, "-B", SCRIPT] + args, cwd=ctx.dir, timeout=t, stdin=subprocess.DEVNULL,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                                   preexec_fn=lambda: __import__("resource").setrlimit(__import__("resource").RLIMIT_AS, (3 << 30, 3 << 30)))
                return p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired:
                pass
        ctx.fail("generator-hang", "no result in %d s: %s" % (timeout * 3, " ".join(args)), stop=True)

    def case(self, ctx, rng, idx):
        if idx % 100 == 7:
            return self.stats(ctx, rng)
        if rng.random() < .25:
            return self.refusal(ctx, rng)
        f = Factors(rng)
        args = f.args()
        out = None
        if rng.random() < .3:
            out = ctx.path("tree.out")
            args += ["-o", out]
        code, so, se = self.gen(ctx, args)
        label = " ".join(args)
        if code != 0:
            if code == 1 and so.startswith("Error in factors:\n") and not se and not f.feasible() and not (out and os.path.exists(out)):
                ctx.count("refused_combination")
                return
            ctx.fail("generator-fails", "exit %d for %s\n%s%s" % (code, label, so[-300:], se[-800:]), stop=True)
        if se:
            ctx.fail("generator-noise", "%s: %s" % (label, se[-500:]))
        if out:
            if so:
                ctx.fail("stdout-with-output", so[:200])
            so = open(out).read()
        ctx.count("accepted")
        try:
            d = parse_xml(so)
            self.document(ctx, f, d)
            self.summarised(ctx, f, d, so)
        except (Bad, ET.ParseError, ValueError, AttributeError, TypeError, KeyError) as e:
            ctx.fail("document:%s" % re.sub(r"[\d.]+|[GB]\d+", "#", str(e))[:60], "%s: %r" % (label, e), stop=True)
        p = ctx.write("tree.xml", so)
        r = ctx.scram(["--validate", p])
        if r.code != 0 or r.err:
            ctx.fail("scram-refuses", "%s: %s" % (label, r.err.decode(errors="replace")[:600]), stop=True)
        ctx.count("scram_accepts")
        if any(w for w in f.weights()[3:]):
            ctx.count("noncoherent")
        base = f.args()
        # The same seed again.
        code, so2, _ = self.gen(ctx, base)
        d2 = parse_xml(so2) if code == 0 else None
        if d2 is None or d2.canon() != d.canon():
            ctx.fail("same-seed", "another tree from %s" % label, stop=True)
        ctx.count("same_seed")
        if sorted(re.sub(r"<opsa-mef>.*", "", so2, flags=re.S)) != sorted(re.sub(r"<opsa-mef>.*", "", so, flags=re.S)):
            ctx.fail("same-seed-summary", label)
        if f.b >= 30 and f.lo < f.hi:
            f.seed += 1
            code, so3, _ = self.gen(ctx, f.args())
            if code == 0 and parse_xml(so3).canon() == d.canon():
                ctx.fail("seed-ignored", label)
            f.seed -= 1
            ctx.count("other_seed")
        # Aralia.
        code, so4, se4 = self.gen(ctx, base + ["--aralia"])
        try:
            need(code == 0, "exit %d %s" % (code, se4[-300:]))
            a = parse_aralia(so4)
            need(a.name == d.name, "name")
            need(a.canon()[1] == d.canon()[1], "gates differ")
            need(a.houses == d.houses, "house events differ")
            mem = set(m for c in d.ccfs for m in c[1])
            need(set(a.basics) == set(d.basics) | mem, "basic events differ")
            need(all(a.basics[b] == p for b, p in d.basics.items()), "probabilities differ")
            need(all(f.lo <= p <= f.hi for p in a.basics.values()), "probability bounds")
            self.sorted(a, f)
            ctx.count("aralia_equal")
        except (Bad, ValueError) as e:
            ctx.fail("aralia:%s" % str(e)[:30], "%s: %r" % (label, e))
        # Nested NOT.
        if any(g[0] == "not" for g in d.gates.values()):
            code, so5, se5 = self.gen(ctx, base + ["--nest"])
            try:
                need(code == 0, "exit %d %s" % (code, se5[-300:]))
                n = parse_xml(so5)
                nots = {}
                for g, (o, k, ar) in d.gates.items():
                    if o == "not":
                        nots.setdefault(ar[0], set()).add(g)
                need(set(n.gates) == set(d.gates), "gates")
                for g, (o, k, ar) in n.gates.items():
                    o0, k0, ar0 = d.gates[g]
                    need((o, k) == (o0, k0), "operator of %s" % g)
                    # Each nested negation must be one of the negation gates among the original arguments.
                    norm = lambda x: ("not", x[1][2][0]) if x[0] == "formula" else (
                        ("not", d.gates[x[1]][2][0]) if x[0] == "gate" and d.gates[x[1]][0] == "not" else x)
                    key = lambda xs: sorted(map(repr, map(norm, xs)))
                    need(key(ar) == key(ar0), "arguments of %s" % g)
                need(n.basics == d.basics and n.houses == d.houses and n.ccfs == d.ccfs, "events")
                if n.nested:
                    ctx.count("nested_equal")
                p = ctx.write("nest.xml", so5)
                r = ctx.scram(["--validate", p])
                need(r.code == 0 and not r.err, "scram refuses: " + r.err.decode(errors="replace")[:400])
            except (Bad, ValueError, KeyError, ET.ParseError) as e:
                ctx.fail("nest:%s" % str(e)[:20], "%s: %r" % (label, e))
        ctx.sig(f.b, f.a, tuple(f.w), f.cb, f.cg, f.g > 0, f.house > 0, f.ccf > 0)
        ctx.sample(label)

    def sorted(self, d, f):
        pos = {g: i for i, g in enumerate(d.order)}
        need(d.order[0] == f.root, "the root is not first")
        for g, (o, k, a) in d.gates.items():
            for kind, x in a:
                if kind == "gate":
                    need(pos[x] > pos[g], "not topologically sorted")

    def document(self, ctx, f, d):
        need(d.name == f.ft, "fault tree name")
        need(f.root in d.gates, "root gate name")
        mem = [m for c in d.ccfs for m in c[1]]
        need(len(mem) == len(set(mem)), "CCF groups overlap")
        need(not set(mem) & set(d.basics), "CCF member also defined")
        allb = set(mem) | set(d.basics)
        need(len(allb) == f.b, "number of basic events %d for %d" % (len(allb), f.b))
        need(allb == set("B%d" % (i + 1) for i in range(f.b)), "names of basic events")
        need(set(d.houses) == set("H%d" % (i + 1) for i in range(f.house)), "house events %d for %d" % (len(d.houses), f.house))
        need([c[0] for c in d.ccfs] == ["CCF%d" % (i + 1) for i in range(f.ccf)], "CCF groups %d for %d" % (len(d.ccfs), f.ccf))
        need(set(d.gates) - {f.root} <= set("G%d" % (i + 1) for i in range(len(d.gates))), "gate names")
        for p in list(d.basics.values()) + [c[2] for c in d.ccfs]:
            need(f.lo <= p <= f.hi, "probability bounds")
        for n, m, p, fs in d.ccfs:
            need(len(m) >= 2 and 1 <= len(fs) <= len(m) - 1, "CCF sizes")
            need(all(.1 <= x <= 1 for x in fs), "CCF factors")
        for s in d.houses.values():
            need(s in ("true", "false"), "house state")
        w = f.weights()
        used = set()
        for g, (o, k, a) in d.gates.items():
            need(w[OPS.index(o)] > 0, "gate type %s without weight" % o)
            need(not any(x[0] == "formula" for x in a), "nested without asking")
            need(len(a) == len(set(a)), "repeated argument")
            n = len(a)
            need(n == 1 if o == "not" else n == 2 if o == "xor" else n >= 2, "arity of %s" % o)
            if o == "atleast":
                need(2 <= k < n, "min of atleast")
            for kind, x in a:
                need(x in {"gate": d.gates, "basic-event": allb, "house-event": d.houses}[kind], "undefined %s" % kind)
                used.add((kind, x))
        need(d.gates[f.root][0] not in ("not", "xor"), "type of the root")
        for kind, s in (("gate", set(d.gates) - {f.root}), ("basic-event", allb), ("house-event", d.houses)):
            for x in s:
                need((kind, x) in used, "unused %s" % kind)
        need(("gate", f.root) not in used, "the root is used")
        self.sorted(d, f)
        ctx.count("gates", len(d.gates))

    def summarised(self, ctx, f, d, text):
        """The two comments against the tree."""
        cs = summary(text)
        need(len(cs) == 2, "two comments")
        a, b = cs
        want = {"The fault tree name": f.ft, "The root gate name": f.root, "The seed of the random number generator": f.seed,
                "The number of basic events": f.b, "The number of house events": f.house, "The number of CCF groups": f.ccf,
                "The average number of gate arguments": float(f.a), "Maximum probability for basic events": f.hi,
                "Minimum probability for basic events": f.lo}
        if not f.g:
            want.update({"Percentage of common basic events per gate": f.cb, "Percentage of common gates per gate": f.cg,
                         "The avg. number of parents for common basic events": f.pb, "The avg. number of parents for common gates": f.pg})
        self.fields(ctx, "setup", a, want)
        w = a.get("The weights of gate types [AND, OR, K/N, NOT, XOR]", "")
        need([float(x) for x in w.strip("[]").split(", ")] == [float(x) for x in f.w] + [0] * (5 - len(f.w)), "weights in setup")
        G = d.gates
        cnt = {o: sum(1 for g in G.values() if g[0] == o) for o in OPS}
        parents = {}
        for g, (o, k, ar) in G.items():
            for x in ar:
                parents.setdefault(x, set()).add(g)
        cb = [len(v) for (kd, x), v in parents.items() if kd == "basic-event" and len(v) > 1]
        cg = [len(v) for (kd, x), v in parents.items() if kd == "gate" and len(v) > 1]
        common = lambda x: len(parents[x]) > 1
        fb = fcb = fcg = nb = ng = 0
        for g, (o, k, ar) in G.items():
            bs = [x for x in ar if x[0] == "basic-event"]
            gs = [x for x in ar if x[0] == "gate"]
            fb += len(bs) / (len(bs) + len(gs))
            if bs:
                nb += 1
                fcb += sum(map(common, bs)) / len(bs)
            if gs:
                ng += 1
                fcg += sum(map(common, gs)) / len(gs)
        want = {"The number of basic events": f.b, "The number of house events": f.house, "The number of CCF groups": f.ccf, "The number of gates": len(G),
                "AND gates": cnt["and"], "OR gates": cnt["or"], "K/N gates": cnt["atleast"], "NOT gates": cnt["not"], "XOR gates": cnt["xor"],
                "Basic events to gates ratio": f.b / len(G), "The average number of gate arguments": sum(len(g[2]) for g in G.values()) / len(G),
                "The number of common basic events": len(cb), "The number of common gates": len(cg),
                "Percentage of common basic events per gate": fcb / nb, "Percentage of common gates per gate": fcg / (ng or 1),
                "Percentage of arguments that are basic events per gate": fb / len(G)}
        if cb:
            want["The avg. number of parents for common basic events"] = sum(cb) / len(cb)
        if cg:
            want["The avg. number of parents for common gates"] = sum(cg) / len(cg)
        self.fields(ctx, "summary", b, want)

    def fields(self, ctx, what, got, want):
        for k, v in want.items():
            need(k in got, "%s: no '%s'" % (what, k))
            if isinstance(v, str):
                ok = got[k] == v
            else:
                ok = abs(float(got[k]) - v) <= 1e-9 * max(1, abs(v))
            need(ok, "%s: '%s' is %s not %s" % (what, k, got[k], v))
            ctx.count("summary_fields")

    def refusal(self, ctx, rng):
        args, what = bad_args(rng)
        out = None
        if rng.random() < .5:
            out = ctx.write("keep.xml", "keep")
            args = args + ["-o", out]
        if rng.random() < .2:
            args = args + ["--aralia"]
        code, so, se = self.gen(ctx, args)
        if code != 1 or not so.startswith("Error in factors:\n") or len(so.strip().split("\n")) < 2 or se:
            ctx.fail("not-refused:%s" % what, "exit %d for %s: %r %r" % (code, " ".join(args), so[:300], se[-500:]), stop=True)
        if out and open(out).read() != "keep":
            ctx.fail("output-touched", "by a refused run: %s" % " ".join(args))
        ctx.count("refused")
        ctx.sig("refused", what)

    def stats(self, ctx, rng):
        """Large trees come close to the requested averages."""
        f = Factors(rng, size=rng.choice([3000, 5000, 8000]))
        f.a = rng.choice([3, 3.5, 4, 5, 6])
        f.w = rng.choice([[1, 1], [1], [1, 2], [2, 1, 1], [4, 4, 0, 1, 1], [1, 1, 1, 1, 1], [0, 1, 1, .5]])
        f.cb, f.cg = rng.choice([.1, .2, .4]), rng.choice([.1, .2, .3])
        f.pb, f.pg = rng.choice([2, 3, 4]), rng.choice([2, 3])
        f.house, f.ccf, f.g = 0, rng.choice([0, f.b // 20]), 0
        if rng.random() < .3:
            f.g = int(f.b / f.a * 2)
        code, so, se = self.gen(ctx, f.args(), 250)
        label = " ".join(f.args())
        if code != 0:
            ctx.fail("generator-fails", "exit %d for %s\n%s%s" % (code, label, so[-300:], se[-800:]), stop=True)
        try:
            d = parse_xml(so)
            self.document(ctx, f, d)
            self.summarised(ctx, f, d, so)
            b = summary(so)[1]
            v = {k: float(x) for k, x in b.items() if re.fullmatch(r"[-\d.e]+", x)}
            avg = v["The average number of gate arguments"]
            need(abs(avg / f.a - 1) < .08, "average arguments %g" % avg)
            n = len(d.gates)
            for o, w in zip(OPS, f.weights()):
                c = sum(1 for g in d.gates.values() if g[0] == o)
                need(abs(c - n * w) <= 6 * math.sqrt(n * w * (1 - w)) + 0.01 * n, "share of %s: %d of %d" % (o, c, n))
            ps = list(d.basics.values())
            m = sum(ps) / len(ps)
            sd = (f.hi - f.lo) / math.sqrt(12 * len(ps))
            need(abs(m - (f.hi + f.lo) / 2) <= 7 * sd + 1e-12, "mean probability %g" % m)
            if f.g:
                need(abs(n / f.g - 1) < .25, "number of gates %d for %d" % (n, f.g))
            else:
                gf, bf = 1 - f.cg + f.cg / f.pg, 1 - f.cb + f.cb / f.pb
                ratio = f.a * gf - 1
                expect = f.b * (1 + ratio) / (ratio * f.a * bf)
                need(abs(n / expect - 1) < .25, "number of gates %d, expected about %d" % (n, expect))
                pb = v["The avg. number of parents for common basic events"]
                need(.8 < pb / f.pb < 2.5, "parents of common basic events %g" % pb)
                cb = v["Percentage of common basic events per gate"]
                need(-.07 < cb - f.cb < .2, "common basic events %g" % cb)
            ctx.sample("stats %s: %s" % (label, {k: b[k] for k in list(b)[-8:]}))
        except (Bad, ET.ParseError, ValueError, KeyError) as e:
            ctx.fail("statistics:%s" % re.sub(r"[\d.]+", "#", str(e))[:40], "%s: %r" % (label, e), stop=True)
        ctx.count("statistics")
