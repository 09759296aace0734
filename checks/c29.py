"""External libraries: a canary library records loading and every call."""
import glob, itertools, math, os, random, re, shutil, subprocess
import core, rich, options

TYPES = "id"
SIGS = [(r, a) for r in TYPES for n in range(6) for a in ("".join(x) for x in itertools.product(TYPES, repeat=n))]
C = {"i": "int", "d": "double"}
XML = {"i": "<int/>", "d": "<double/>"}


def tag(lib, r, a, p):
    h = lib * 7 + (3 if r == "d" else 1) + 10 * p
    for k, c in enumerate(a):
        h = h * 3 + (2 if c == "d" else 1)
    return (h % 251) / 8.0


def sym(r, a, p):
    return "%s_%s_%s" % ("p" if p else "f", r, a)


def source(lib):
    s = ["#include <stdio.h>\n#include <fcntl.h>\n#include <unistd.h>\n#include <string.h>\n#include <math.h>\n"
         "static void note(const char* f, const char* t) { int d = open(f, O_WRONLY | O_APPEND | (f[0] == 'L' ? O_CREAT : 0), 0644);"
         " if (d >= 0) { if (write(d, t, strlen(t)) < 0) {} close(d); } }\n"
         "__attribute__((constructor)) static void up(void) { note(\"LOADED\", \"lib%d\\n\"); }\n" % lib]
    for p in (0, 1):
        for r, a in SIGS:
            ps = ", ".join("%s a%d" % (C[c], k) for k, c in enumerate(a)) or "void"
            b = 'char b[400]; int n = snprintf(b, 400, "%d %s");' % (lib, sym(r, a, p))
            for k, c in enumerate(a):
                b += ' n += snprintf(b + n, 400 - n, " %s", a%d);' % ("%d" if c == "i" else "%a", k)
            b += ' b[n] = 10; b[n + 1] = 0; note("CALLS", b); double s = %r;' % tag(lib, r, a, p)
            for k, c in enumerate(a):
                b += " s = s * 1.5 + a%d;" % k
            if p:
                b += " return %s;" % ("1 / (2 + fabs(s))" if r == "d" else "s > 40")
            else:
                b += " return s;"
            s.append("%s %s(%s) { %s }\n" % (C[r], sym(r, a, p), ps, b))
    return "".join(s)


def call(lib, r, a, p, args):
    """The function's result and its log line."""
    vals = [float(int(x)) if c == "i" else x for c, x in zip(a, args)]
    s = tag(lib, r, a, p)
    for v in vals:
        s = s * 1.5 + v
    if p:
        v = 1 / (2 + abs(s)) if r == "d" else float(s > 40)
    else:
        if abs(s) > 1e8 or s != s:
            raise OverflowError
        v = s if r == "d" else float(int(s))
    line = "%d %s" % (lib, sym(r, a, p)) + "".join(" %d" % v if c == "i" else " " + cdouble(v) for c, v in zip(a, vals))
    return v, line


def cdouble(v):
    return "%r" % v


def parse_call(line):
    f = line.split()
    a = f[1].split("_")[2]
    return f[0] + " " + f[1] + "".join(" " + x if c == "i" else " " + cdouble(float.fromhex(x)) for c, x in zip(a, f[2:]))


DISALLOWED = b"Loading external libraries is disallowed"


class Check(core.BaseCheck):
    ID = "C29"
    QUICK, THOROUGH = 900, 20000
    RULE = ("a canary library whose constructor leaves a mark and whose 252 functions (every signature of up to five int and double parameters, order-sensitive results) log their arguments: (a) random models naming it in any file, under random options, "
            "project files, --validate and failing inputs, without --allow-extern: refused with the stated diagnostic, no mark, no call; (b) with --allow-extern: random declared functions over random argument expressions, nested, shared and random; values, samples, "
            "top probability and the logged calls compared with an independent evaluation; library lookup by relative, absolute, decorated and system paths; (c) missing libraries, symbols, names, wrong argument numbers, too many parameters, duplicates: refused; "
            "distinct by the function signatures, arguments and outcome")
    MIN = {"distinct": 500, "refused_disallowed": 200, "values_compared": 2000, "calls_checked": 2000, "rejected_bad": 80, "signatures": 600, "probabilities": 80, "samples_compared": 1500}
    ASSUMPTIONS = ["only the dynamic loader's execution of the library's constructor and the calls are observed; double to int conversions stay within int's range"]

    def prepare(self):
        d = os.path.join(self.env["scratch"], "canary")
        os.makedirs(d)
        self.libs = []
        for k in (1, 2):
            c = os.path.join(d, "lib%d.c" % k)
            with open(c, "w") as f:
                f.write(source(k))
            so = os.path.join(d, "libcanary%d.so" % k)
            subprocess.check_call(["gcc", "-shared", "-fPIC", "-O0", "-ffp-contract=off", "-o", so, c])
            self.libs.append(so)

    def case(self, ctx, rng, idx):
        r = rng.random()
        if r < 0.35:
            self.disallowed(ctx, rng)
        elif r < 0.8:
            self.allowed(ctx, rng)
        else:
            self.bad(ctx, rng)

    def put_lib(self, ctx, rng, which, base):
        """Copies a library somewhere and returns the attributes naming it from a file in base."""
        sub = rng.choice(["", "", "sub", "sub/deep"])
        style = rng.choice(["relative", "relative", "absolute", "decorate", "decorate", "system", "uplevel"])
        stem = rng.choice(["canary", "a.b", "x-y"] + (["lib"] if style != "decorate" else [])) + str(which)
        fname = "lib%s.so" % stem if style == "decorate" or rng.random() < 0.7 else stem + rng.choice(["", ".so", ".so.1", ".dll"])
        p = os.path.join(base, sub, fname)
        full = ctx.path(p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        shutil.copy(self.libs[which - 1], full)
        rel = os.path.join(sub, stem if style == "decorate" else fname)
        at = ""
        if style == "decorate":
            at = ' decorate="%s"' % rng.choice(["true", "1"])
        elif style == "absolute":
            rel = full
        elif style == "system":
            if sub:
                at = ' system="%s"' % rng.choice(["true", "1"])
            else:
                rel, at = full, ' system="true"'
        elif style == "uplevel" and base:
            rel = "../" + os.path.join(base, rel)
        if not at and rng.random() < 0.3:
            at = rng.choice([' system="false"', ' decorate="false"', ' system="0" decorate="false"'])
        return rel, at, style

    # --- (a)
    def disallowed(self, ctx, rng):
        m = rich.Rich(rng, small=True)
        sp, docs = rich.spell(m, rng, nfiles=rng.choice([1, 2, 3]))
        rel, at, style = self.put_lib(ctx, rng, rng.choice([1, 2]), "")
        if rng.random() < 0.15:
            rel = rng.choice(["", ".", "nowhere.so", "libm.so.6"])
        lib = '<define-extern-library name="Lib" path="%s"%s/>' % (rel, at)
        fn = "".join('<define-extern-function name="Fn%d" symbol="%s" library="Lib">%s%s</define-extern-function>' % (i, sym(r, a, 0), XML[r], "".join(XML[c] for c in a)) for i, (r, a) in enumerate(rng.sample(SIGS, rng.randint(0, 2))))
        k = rng.randrange(len(docs) + 1)
        broken = None
        if k == len(docs):
            docs.insert(rng.randrange(len(docs) + 1), '<?xml version="1.0"?>\n<opsa-mef>%s</opsa-mef>\n' % (lib + fn if rng.random() < 0.7 else fn + lib))
        elif "</opsa-mef>" in docs[k]:
            j = docs[k].rindex("</opsa-mef>")
            docs[k] = docs[k][:j] + lib + fn + docs[k][j:]
        else:
            docs[k] = '<?xml version="1.0"?>\n<opsa-mef>%s</opsa-mef>\n' % lib
            broken = True
        if rng.random() < 0.15:
            broken = True
            x = rng.randrange(len(docs))
            docs[x] = rng.choice([docs[x][:len(docs[x]) // 2], docs[x].replace("</opsa-mef>", '<define-gate name="zz"><basic-event name="nosuch"/></define-gate></opsa-mef>')])
        files = [ctx.write("m%d.xml" % i, d) for i, d in enumerate(docs)]
        o = options.Options(rng)
        cli = o.cli(rng)
        if rng.random() < 0.3:
            p = ctx.write("project.xml", '<?xml version="1.0"?>\n<scram><model>%s</model><options/></scram>\n' % "".join("<file>%s</file>" % os.path.basename(f) for f in files))
            args = cli + ["--project", p]
        else:
            args = cli + files
        args += rng.choice([[], [], ["--validate"], ["--no-report"], ["--serialize"], ["--verbosity", "7"], ["--print"]])
        ctx.write("CALLS", "")
        r = ctx.scram(args + (["-o", ctx.path("report.xml")] if rng.random() < 0.5 else []))
        self.unloaded(ctx, r)
        if r.code == 0:
            ctx.fail("accepted-without-permission", "args %s exit 0" % r.args)
        if os.path.exists(ctx.path("report.xml")):
            ctx.fail("report-without-permission", "args %s" % r.args)
        if not broken and DISALLOWED not in r.err:
            # An independent error of options may come first.
            if not re.search(rb"SettingsError|option", r.err):
                ctx.fail("diagnostic-without-permission", "args %s\n%s" % (r.args, r.err.decode(errors="replace")[-800:]))
        elif DISALLOWED in r.err:
            ctx.count("refused_disallowed")
            ctx.sig("no", style, docs, cli)
        # The same process later: the refusal must not have left the permission or the library behind.
        if rng.random() < 0.3:
            q = ctx.probe(["expr", ctx.path("o.txt"), "0", "1", "100", "0"] + files)
            self.unloaded(ctx, q)
            if q.code == 0:
                ctx.fail("accepted-without-permission", "library interface")

    def unloaded(self, ctx, r):
        for f in ("LOADED", "CALLS"):
            data = core.rd(os.path.join(r.cwd, f))
            if data:
                ctx.fail("loaded-without-permission", "args %s: %s %r" % (r.args, f, data[:200]))

    # --- (b)
    def allowed(self, ctx, rng):
        for _ in range(60):
            try:
                g = Gen(rng)
                break
            except OverflowError:
                continue
        else:
            return
        base = rng.choice(["", "", "models"])
        libs = ""
        for k in g.libs:
            rel, at, style = self.put_lib(ctx, rng, g.libs[k], base)
            libs += '<define-extern-library name="%s" path="%s"%s/>' % (k, rel, at)
            ctx.count("lookup:" + style)
        parts = [libs] + g.functions + g.params + g.fault_tree
        if rng.random() < 0.3:  # Two files, definitions in either.
            one = [p for p in parts if rng.random() < 0.5]
            two = [p for p in parts if p not in one]
            texts = [one, two]
        else:
            texts = [parts]
        for t in texts:
            rng.shuffle(t)
        files = [ctx.write(os.path.join(base, "m%d.xml" % i), '<?xml version="1.0"?>\n<opsa-mef>%s</opsa-mef>\n' % "\n".join(t)) for i, t in enumerate(texts)]
        rng.shuffle(files)
        os.makedirs(ctx.path("w"), exist_ok=True)
        cwd = ctx.path("w")
        ctx.write("w/CALLS", "")
        rel = [os.path.relpath(f, cwd) if rng.random() < 0.5 else f for f in files]
        trials = rng.choice([3, 5, 8]) if g.random else 0
        r = ctx.probe(["expr", ctx.path("o.txt"), str(trials), str(rng.randint(1, 99)), repr(g.time), "1"] + rel, cwd=cwd)
        if r.code:
            ctx.fail("allowed-rejected", r.err.decode(errors="replace")[-1000:], stop=True)
        if sorted(core.rd(ctx.path("w/LOADED")).decode().split()) != sorted({"lib%d" % k for k in g.libs.values()}):
            ctx.fail("wrong-libraries", core.rd(ctx.path("w/LOADED")), stop=True)
        calls = [parse_call(x) for x in core.rd(ctx.path("w/CALLS")).decode().splitlines()]
        order, trial = [], 0
        for line in core.rd(ctx.path("o.txt")).decode().splitlines():
            f = line.split()
            if f[0] in ("param", "basic", "after"):
                ctx.count("values_compared")
                want = g.value[f[1]]
                if not close(float(f[2]), want):
                    ctx.fail("value", "%s: %s is %s, should be %r\n%s" % (f[0], f[1], f[2], want, "\n".join(g.params)))
                if f[0] == "param":
                    order.append(f[1])
                    if bool(int(f[5])) != g.dev[f[1]]:
                        ctx.fail("deviate", "%s: %s" % (f[1], line))
                        g.dev[f[1]] = bool(int(f[5]))
            elif f[0] == "trial":
                trial += 1
                vals = dict(zip(order, map(float, f[1:])))
                for n, e in g.exprs.items():
                    if not g.direct[n]:
                        continue  # A deviate inside: no reference value.
                    try:
                        want = g.eval(e, vals, set())
                    except OverflowError:
                        continue
                    ctx.count("samples_compared")
                    if not close(vals[n], want):
                        ctx.fail("sample", "trial %d: %s is %r, should be %r of %s" % (trial, n, vals[n], want, vals))
            elif f[0] == "unstable":
                ctx.fail("unstable", line)
        mean_calls = set(g.calls)
        for c in calls:
            ctx.count("calls_checked")
            if trials == 0 and c not in mean_calls:
                ctx.fail("call", "unexpected call %s, expected one of %s" % (c, sorted(mean_calls)[:20]))
        missing = mean_calls - set(calls)
        if missing:
            ctx.fail("call-missing", "never called: %s" % sorted(missing)[:5])
        for s in g.used:
            ctx.count("signatures")
        ctx.sig("yes", sorted(g.calls))
        ctx.sample("\n".join(parts))
        # The command line.
        o = rng.choice([["--bdd"], [], ["--zbdd"], ["--mocus"]])
        rep = ctx.path("w/r.xml")
        args = o + ["--probability", "--mission-time", repr(g.time), "-o", rep] + rel
        args.insert(rng.choice([0, len(o), len(args) - len(rel)]), "--allow-extern")
        if rng.random() < 0.15:  # Permission given for one run is not for the next.
            ctx.write("w/LOADED", "")
            k = args.index("--allow-extern")
            no = args[:k] + args[k + 1:]
            r = ctx.run("hist", args + ["--then"] + no, cwd=cwd)
            if core.rd(ctx.path("w/LOADED")).count(b"\n") > len(set(g.libs.values())):
                ctx.fail("permission-stays", "%r" % core.rd(ctx.path("w/LOADED")))
            ctx.count("permission_histories")
            if DISALLOWED not in r.err:
                ctx.fail("permission-stays", "args %s\n%s" % (args, r.err.decode(errors="replace")[-500:]))
            return
        if o == ["--mocus"] or o == ["--zbdd"]:
            args.insert(0, "--mcub")
        r = ctx.scram(args, cwd=cwd)
        if r.code:
            ctx.fail("allowed-rejected", r.err.decode(errors="replace")[-1000:], stop=True)
        got = re.search(rb'<sum-of-products [^>]*probability="([^"]*)"', core.rd(rep))
        if not got:
            ctx.fail("no-probability", core.rd(rep)[-500:].decode(errors="replace"), stop=True)
        ctx.count("probabilities")
        if abs(float(got.group(1)) - g.top) > 3e-5 * g.top:
            ctx.fail("probability", "top is %s, should be %r" % (got.group(1), g.top))

    # --- (c)
    def bad(self, ctx, rng):
        g = None
        while g is None:
            try:
                g = Gen(rng)
            except OverflowError:
                pass
        libs = {}
        for k in g.libs:
            rel, at, style = self.put_lib(ctx, rng, g.libs[k], "")
            libs[k] = '<define-extern-library name="%s" path="%s"%s/>' % (k, rel, at)
        fns, pars = list(g.functions), list(g.params)
        kinds = ["no-lib-file", "no-lib-file", "bad-path", "not-a-library", "no-symbol", "undefined-lib", "undefined-fn", "few", "many", "six", "dup-lib", "dup-fn", "no-decorate", "system-miss"]
        kind = rng.choice(kinds)
        want = None
        k0 = rng.choice(sorted(libs))
        i = rng.randrange(len(fns))
        if kind == "no-lib-file":
            libs[k0] = '<define-extern-library name="%s" path="%s"/>' % (k0, rng.choice(["nosuch.so", "sub/nosuch.so", "/nonexistent/lib.so", "LIBCANARY1.SO"]))
            want = "DLError"
        elif kind == "bad-path":
            libs[k0] = '<define-extern-library name="%s" path="%s"/>' % (k0, rng.choice(["", ".", "..", "lib/", "lib:", "sub/..", "a\\"]))
            want = "ValidityError"
        elif kind == "not-a-library":
            ctx.write("text.so", rng.choice(["", "not a library\n", "\x7fELF", "\x7fELF\x02\x01\x01" + "\0" * 60]))
            os.makedirs(ctx.path("dir.so"), exist_ok=True)
            libs[k0] = '<define-extern-library name="%s" path="%s"/>' % (k0, rng.choice(["text.so", "text.so", "dir.so"]))
            want = "DLError"
        elif kind == "no-decorate":
            shutil.copy(self.libs[0], ctx.path("libplain.so"))
            libs[k0] = '<define-extern-library name="%s" path="plain"/>' % k0
            want = "DLError"
        elif kind == "system-miss":
            libs[k0] = '<define-extern-library name="%s" path="nosuchlibrary" system="true" decorate="true"/>' % k0
            want = "DLError"
        elif kind == "no-symbol":
            fns[i] = re.sub(r'symbol="[^"]*"', 'symbol="%s"' % rng.choice(["nosuch", "f_d", "F_I_", "main_"]), fns[i])
            want = "DLError"
        elif kind == "undefined-lib":
            fns[i] = re.sub(r'library="[^"]*"', 'library="%s"' % rng.choice(["NoLib", k0 + "x", "nolib"]), fns[i])
            want = "UndefinedElement"
        elif kind == "undefined-fn":
            pars.append('<model-data><define-parameter name="zbad"><extern-function name="NoFn"/></define-parameter></model-data>')
            want = "UndefinedElement"
        elif kind in ("few", "many"):
            name, lib, r, a, p = rng.choice([x for x in g.table if kind == "many" or x[3]] or [(None,) * 5])
            if name is None:
                return
            n = rng.randrange(len(a)) if kind == "few" else len(a) + rng.randint(1, 3)
            pars.append('<model-data><define-parameter name="zbad"><extern-function name="%s">%s</extern-function></define-parameter></model-data>' % (name, '<int value="1"/>' * n))
            want = "ValidityError"
        elif kind == "six":
            fns.append('<define-extern-function name="six" symbol="f_d_ddddd" library="%s">%s</define-extern-function>' % (k0, "".join(XML[rng.choice(TYPES)] for _ in range(rng.choice([7, 7, 8, 12, 30, 60])))))
            want = "ValidityError"
        elif kind == "dup-lib":
            libs["again"] = libs[k0]
            want = "DuplicateElementError"
        elif kind == "dup-fn":
            fns.append(fns[i])
            want = "DuplicateElementError"
        parts = list(libs.values()) + fns + pars + g.fault_tree
        rng.shuffle(parts)
        f = ctx.write("m.xml", '<?xml version="1.0"?>\n<opsa-mef>%s</opsa-mef>\n' % "\n".join(parts))
        rep = ctx.path("r.xml")
        r = ctx.scram(["--allow-extern", "--probability", "-o", rep, f] + rng.choice([[], ["--validate"]]))
        ctx.count("rejected:" + kind)
        if r.code == 0:
            ctx.fail("bad-accepted:" + kind, "exit 0 for\n%s" % "\n".join(parts), stop=True)
        if os.path.exists(rep):
            ctx.fail("bad-report:" + kind, "a report is left")
        if want.encode() not in r.err:
            ctx.fail("bad-diagnostic:" + kind, r.err.decode(errors="replace")[-800:])
        ctx.count("rejected_bad")
        ctx.sig("bad", kind, i, sorted(g.calls))


def kids(e):
    return e[2] if e[0] == "call" else e[1] if len(e) > 1 and isinstance(e[1], list) else []


def close(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


class Gen:
    """Random functions, parameters over them and a fault tree of their probabilities."""

    def __init__(self, rng):
        self.rng = rng
        self.time = rng.choice([100.0, 8760.0, 3.5])
        self.random = rng.random() < 0.5
        names = rng.sample(["L1", "lib", "Canary", "core-lib", "x"], 2)
        two = rng.random() < 0.5
        self.libs = {names[0]: 1, names[1]: 2} if two else {names[0]: rng.choice([1, 2])}
        self.table = []
        for i in range(rng.randint(2, 7)):
            r, a = rng.choice(SIGS) if rng.random() < 0.6 else (rng.choice(TYPES), "".join(rng.choice(TYPES) for _ in range(rng.randint(0, 5))))
            self.table.append(("fn%d" % i, rng.choice(sorted(self.libs)), r, a, 0))
        for i in range(rng.randint(1, 4)):
            r, a = rng.choice([x for x in SIGS if x[0] == "d"]) if rng.random() < 0.85 else rng.choice(SIGS)
            self.table.append(("pr%d" % i, rng.choice(sorted(self.libs)), r, a, 1))
        self.functions = ['<define-extern-function name="%s" symbol="%s" library="%s">%s%s</define-extern-function>' % (n, sym(r, a, p), l, XML[r], "".join(XML[c] for c in a)) for n, l, r, a, p in self.table]
        self.value, self.dev, self.exprs, self.direct, self.calls, self.used = {}, {}, {}, {}, [], set()
        self.params = []
        for i in range(rng.randint(3, 8)):
            n = "q%d" % i
            e = self.expr(rng.randint(0, 3))
            self.exprs[n] = e
            self.value[n] = self.eval(e, self.value, self.calls)
            if abs(self.value[n]) > 1e6:
                raise OverflowError
            self.dev[n] = self.deviate(e)
            self.direct[n] = not self.inner(e)
            self.params.append('<define-parameter name="%s">%s</define-parameter>' % (n, self.xml(e)))
        basics, q = [], 1.0
        for i, t in enumerate([t for t in self.table if t[4]]):
            n = "b%d" % i
            e = ("call", t, [self.expr(rng.randint(0, 2)) for _ in t[3]])
            self.value[n] = self.eval(e, self.value, self.calls)
            q *= 1 - self.value[n]
            basics.append((n, e))
        self.top = 1 - q
        self.fault_tree = ['<define-fault-tree name="FT"><define-gate name="top"><or>%s<basic-event name="zero"/><basic-event name="nil"/></or></define-gate></define-fault-tree>' % "".join('<basic-event name="%s"/>' % n for n, e in basics),
                           '<model-data><define-basic-event name="zero"><float value="0"/></define-basic-event><define-basic-event name="nil"><int value="0"/></define-basic-event>%s</model-data>' % "".join('<define-basic-event name="%s">%s</define-basic-event>' % (n, self.xml(e)) for n, e in basics)]
        self.value["zero"] = self.value["nil"] = 0.0
        self.params = ["<model-data>%s</model-data>" % p if rng.random() < 0.5 else "<model-data>%s</model-data>" % p for p in self.params]

    def expr(self, depth):
        rng = self.rng
        r = rng.random()
        if depth and r < 0.65:
            t = rng.choice([t for t in self.table if not t[4]] + ([t for t in self.table if t[4]] if rng.random() < 0.2 else []))
            return ("call", t, [self.expr(depth - 1) for _ in t[3]])
        if depth and r < 0.75:
            return (rng.choice(["add", "sub", "mul", "neg"]), [self.expr(depth - 1), self.expr(0)])
        if depth == 0 or r < 0.9:
            k = rng.random()
            if self.exprs and k < 0.4:
                return ("param", rng.choice(sorted(self.exprs)))
            if k < 0.65:
                return ("int", rng.choice([0, 1, -1, 2, 7, -13, 100, 46341]))
            if self.random and k < 0.8:
                return ("uniform", rng.choice([0.5, -2.25, 3.0]), rng.choice([4.0, 9.5]))
            if k < 0.85:
                return ("time",)
            return ("float", rng.choice([0.5, -0.5, 1.9999, -1.75, 3.25, 1e-3, 123.456, rng.uniform(-50, 50)]))
        return ("param", rng.choice(sorted(self.exprs))) if self.exprs else ("int", 3)

    def eval(self, e, env, calls):
        k = e[0]
        if k == "call":
            args = [self.eval(a, env, calls) for a in e[2]]
            if any(abs(x) > 1e8 for x in args):
                raise OverflowError
            n, l, r, a, p = e[1]
            v, line = call(self.libs[l], r, a, p, args)
            if isinstance(calls, list):
                calls.append(line)
                self.used.add((r, a))
            return v
        if k == "param":
            return env[e[1]]
        if k in ("int", "float"):
            return float(e[1])
        if k == "time":
            return self.time
        if k == "uniform":
            return (e[1] + e[2]) / 2
        a = [self.eval(x, env, calls) for x in e[1]]
        return {"add": a[0] + a[1], "sub": a[0] - a[1], "mul": a[0] * a[1], "neg": -a[0]}[k]

    def deviate(self, e):
        if e[0] == "uniform":
            return True
        if e[0] == "param":
            return self.dev[e[1]]
        if e[0] == "neg":
            return self.deviate(e[1][0])
        return any(self.deviate(x) for x in kids(e))

    def inner(self, e):
        if e[0] == "uniform":
            return True
        if e[0] == "neg":
            return self.inner(e[1][0])
        return any(self.inner(x) for x in kids(e))

    def xml(self, e):
        k = e[0]
        if k == "call":
            return '<extern-function name="%s">%s</extern-function>' % (e[1][0], "".join(self.xml(a) for a in e[2]))
        if k == "param":
            return '<parameter name="%s"/>' % e[1]
        if k == "int":
            return '<int value="%d"/>' % e[1]
        if k == "float":
            return '<float value="%r"/>' % e[1]
        if k == "time":
            return "<system-mission-time/>"
        if k == "uniform":
            return '<uniform-deviate><float value="%r"/><float value="%r"/></uniform-deviate>' % (e[1], e[2])
        if k == "neg":
            return "<neg>%s</neg>" % self.xml(e[1][0])
        return "<%s>%s</%s>" % (k, "".join(self.xml(x) for x in e[1]), k)
