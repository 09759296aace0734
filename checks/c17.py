import os
import core, mef, options, report
from report import Report
from ft_common import gen

LIM = {"limit": "product-order", "mission": "mission-time", "time_step": "time-step", "cut_off": "cut-off", "trials": "number-of-trials", "quantiles": "number-of-quantiles", "bins": "number-of-bins", "seed": "seed"}
CLI = {"limit": "--limit-order", "mission": "--mission-time", "time_step": "--time-step", "cut_off": "--cut-off", "trials": "--num-trials", "quantiles": "--num-quantiles", "bins": "--num-bins", "seed": "--seed"}
FLAGS = ("probability", "importance", "uncertainty", "ccf", "sil")
NUMS = {"limit": [0, 1, 2, 3, 4, 20], "mission": [8760.0, 1.0, 100.0, 5000.25, 0.0], "time_step": [0.0, 1000.0, 2190.0, 876.0], "cut_off": [0.0, 1.0, 1e-8, 0.5],
        "trials": [1, 2, 17, 50, 100], "quantiles": [1, 2, 5, 20], "bins": [1, 2, 10], "seed": [0, 1, 123456, 2147483647]}


class Reject(Exception):
    pass


def draw(rng, p):
    """One source of settings: only what is mentioned."""
    o = {}
    if rng.random() < p:
        o["algorithm"] = rng.choice(["bdd", "bdd", "zbdd", "mocus"])
    if rng.random() < p * 0.6:
        o["prime"] = True
    if rng.random() < p * 0.7:
        o["approximation"] = rng.choice(["rare-event", "mcub"])
    for f in FLAGS:
        if rng.random() < p:
            o[f] = True
    for k, v in NUMS.items():
        if rng.random() < p:
            o[k] = rng.choice(v)
    return o


def project_alone(P):
    """The project's own consistency."""
    alg = P.get("algorithm", "bdd")
    if P.get("prime"):
        if alg != "bdd" or "approximation" in P:
            raise Reject("prime implicants with %s, %s" % (alg, P.get("approximation")))
    if P.get("sil") and not P.get("time_step"):
        raise Reject("SIL without time step in the project")


def merge(P, C):
    """The possible meanings of project P with command line C (None = rejection); usually exactly one."""
    try:
        project_alone(P)
    except Reject:
        return [None]
    alg = C.get("algorithm") or P.get("algorithm") or "bdd"
    if C.get("prime") and (alg != "bdd" or "approximation" in C):
        return [None]
    alts = [{}]
    prime = bool(C.get("prime") or P.get("prime"))
    if prime and not C.get("prime") and alg != "bdd":
        prime = False  # The command line chose an algorithm without them.
    approx = [C.get("approximation") or P.get("approximation") or ("none" if alg == "bdd" else "rare-event")]
    rej = False
    if C.get("prime"):
        approx = ["none"]
    elif prime and "approximation" in C:
        b = base(P, C, alg)
        return [None] + ([dict(b, prime=False, approximation=C["approximation"])] if b else [])
    elif "algorithm" in C and "approximation" in P and "approximation" not in C and alg == "bdd":
        approx = [P["approximation"], "none"]  # Choosing BDD brings its default approximation along.
    b = base(P, C, alg)
    if b is None:
        return [None]
    return [dict(b, prime=prime, approximation=a) for a in approx]


def base(P, C, alg):
    e = {"algorithm": alg}
    for f in FLAGS:
        e[f] = bool(C.get(f) or P.get(f))
    for k in NUMS:
        v = C.get(k, P.get(k))
        if v is not None:
            e[k] = v
    if e["sil"] and not e.get("time_step"):
        return None
    return e


def cli_args(o, rng=None):
    a = []
    if o.get("algorithm"):
        a.append(["--" + o["algorithm"]])
    if o.get("approximation") not in (None, "none"):
        a.append(["--" + o["approximation"]])
    if o.get("prime"):
        a.append(["--prime-implicants"])
    for k in FLAGS:
        if o.get(k):
            a.append(["--" + k])
    for k, n in CLI.items():
        if k in o:
            v = repr(o[k]) if isinstance(o[k], float) else str(o[k])
            a.append(["%s=%s" % (n, v)] if rng and rng.random() < 0.3 else [n, v])
    if rng:
        rng.shuffle(a)
    return [x for y in a for x in y]


def to_options(o):
    q = options.Options.__new__(options.Options)
    for k in ("algorithm", "approximation", "prime") + FLAGS + tuple(NUMS):
        setattr(q, k, o.get(k))
    for k in FLAGS:
        setattr(q, k, bool(getattr(q, k)))
    if q.approximation == "none":
        q.approximation = None
    return q.eff()


def project_xml(rng, files, P, falses=()):
    o = ""
    if "algorithm" in P:
        o += '<algorithm name="%s"/>' % P["algorithm"]
    if P.get("prime"):
        o += "<prime-implicants/>"
    fl = [f for f in FLAGS if P.get(f)] + list(falses)
    if fl or rng.random() < 0.2:
        rng.shuffle(fl)
        o += "<analysis%s/>" % "".join(' %s="%s"' % (f, (rng.choice(["true", "1"]) if P.get(f) else rng.choice(["false", "0"]))) for f in fl)
    if "approximation" in P:
        o += '<approximation name="%s"/>' % P["approximation"]
    ls = [(LIM[k], P[k]) for k in NUMS if k in P]
    if ls or rng.random() < 0.2:
        rng.shuffle(ls)
        pad = lambda: rng.choice(["", "", " ", "\n"])
        o += "<limits>%s</limits>" % "".join("<%s>%s%s%s</%s>" % (k, pad(), repr(v) if isinstance(v, float) else v, pad(), k) for k, v in ls)
    ver = rng.choice(["", "", ' version="0.16.0"', ' version="0.1.0"', ' version="0.15.9"', ' version="0.16.2"'])
    return "<?xml version='1.0'?>\n<scram%s><model>%s</model><options>%s</options></scram>" % (
        ver, "".join("<file>%s%s%s</file>" % (rng.choice(["", "\n  "]), f, rng.choice(["", " "])) for f in files), o)


class Check(core.BaseCheck):
    ID = "C17"
    QUICK, THOROUGH = 4000, 60000
    RULE = ("random project files (any subset of algorithm, approximation, prime implicants, analyses, limits; files by relative, parent, absolute paths from a different working directory, decoys at the wrong place) with random "
            "command-line options on top; the report (settings sections and every result) compared with the run given the merged settings on the command line and no project, and with the listed settings; "
            "one case in three plants a contradictory, unknown or out-of-range setting in the project or on the command line and expects status 1, a diagnostic and no report; "
            "non-trivial: a project with at least two options, with results compared")
    MIN = {"distinct": 600, "compared": 500, "overridden": 300, "kept": 500, "decoys": 400, "rejected": 250, "bad_kinds": 1}

    def model(self, rng):
        t, vars, vals = gen(rng, [3, 4, 5], rng.random() < 0.6, houses=True)
        for v in vars:
            if rng.random() < 0.5:
                t.basics[v] = "<exponential><float value='%r'/><system-mission-time/></exponential>" % rng.choice([1e-4, 1e-5, 3e-4])
            elif rng.random() < 0.4:
                t.basics[v] = "<lognormal-deviate><float value='0.01'/><float value='3'/><float value='0.95'/></lognormal-deviate>"
        if len(vars) > 2 and rng.random() < 0.7:
            for v in vars[:2]:
                del t.basics[v]
            t.ccf.append("<define-CCF-group name='CG' model='beta-factor'><members><basic-event name='%s'/><basic-event name='%s'/></members>"
                         "<distribution><float value='0.1'/></distribution><factor><float value='0.3'/></factor></define-CCF-group>" % tuple(vars[:2]))
        return mef.tree_xml(t)

    def case(self, ctx, rng, idx):
        text = self.model(rng)
        parts = [text]
        names = ["m%d.xml" % rng.randint(0, 9)]
        if rng.random() < 0.4:
            parts.append(mef.wrap("<define-fault-tree name='Zft'><define-gate name='Ztop'><or><basic-event name='Zb1'/><basic-event name='Zb2'/></or></define-gate>"
                                  "<define-basic-event name='Zb1'><float value='0.2'/></define-basic-event><define-basic-event name='Zb2'><float value='0.3'/></define-basic-event></define-fault-tree>"))
            names.append("n%d.xml" % rng.randint(0, 9))
        decoy = mef.wrap("<define-fault-tree name='Dft'><define-gate name='Decoy'><not><basic-event name='Db'/></not></define-gate><define-basic-event name='Db'><float value='0.2'/></define-basic-event></define-fault-tree>")
        pdir = rng.choice(["p", "p/q", "."])
        listed, real = [], []
        for n, x in zip(names, parts):
            how = rng.choice(["same", "sub", "up", "abs", "dot"])
            if how == "up" and pdir == ".":
                how = "same"
            rel = {"same": n, "sub": "s/" + n, "up": "../" + n, "dot": "./s/../" + n if False else "./" + n}.get(how)
            if how == "abs":
                real.append(ctx.write("a/" + n, x))
                listed.append(real[-1])
            else:
                real.append(ctx.write(os.path.normpath(os.path.join(pdir, rel)), x))
                if rng.random() < 0.3:  # the other separator of directories
                    ctx.count("backslashes", rel.count("/"))
                    listed.append(rel.replace("/", "\\"))
                else:
                    listed.append(rel)
                d = os.path.normpath(os.path.join("w", rel))  # what a lookup from the working directory finds
                if os.path.normpath(ctx.path(d)) not in real:
                    ctx.write(d, decoy)
                    ctx.count("decoys")
        os.makedirs(ctx.path("w"), exist_ok=True)
        while True:
            P, C = draw(rng, rng.choice([0.2, 0.5, 0.8])), draw(rng, rng.choice([0, 0, 0.1, 0.3]))
            if rng.random() < 0.8 and None in merge(P, C):
                continue
            break
        for o in (P, C):
            if o.get("time_step") and (o.get("mission") or 0) / o["time_step"] > 300:
                o["mission"] = 1000.0
        falses = [f for f in FLAGS if f not in P and rng.random() < 0.2]
        n = None
        if len(real) > 1 and rng.random() < 0.5:
            n = 1  # the second file is given on the command line
        cwd = ctx.path("w")
        spell = lambda p: rng.choice([p, os.path.relpath(p, cwd)])
        pfile = ctx.write(os.path.join(pdir, "project.xml"), project_xml(rng, listed[:n], P, falses))
        args = cli_args(C, rng) + ["--project", spell(pfile)] + [spell(p) for p in (real[n:] if n else [])] + ["-o", "../out.xml"]
        if rng.random() < 0.34:
            return self.bad(ctx, rng, P, C, listed[:n], args, pfile, cwd, falses)
        r = ctx.scram(args, cwd=cwd, timeout=40)
        alts = merge(P, C)
        if alts == [None]:
            self.rejected(ctx, r, "contradictory %s with %s" % (P, C))
            ctx.sig("contradiction", sorted(P), sorted(C))
            return
        if r.code == 1 and None in alts:
            self.rejected(ctx, r, "overlap %s with %s" % (P, C))
            return
        if r.code != 0:
            ctx.fail("rejected", "exit %s on project %s with %s: %s" % (r.code, P, C, r.err.decode(errors="replace")[:600]), stop=True)
        got = Report(core.rd(ctx.path("out.xml")))
        alts = [a for a in alts if a]
        why = None
        for a in alts:
            want = options.quantities(to_options(a))
            have = options.reported(got.root)
            if want != have:
                why = why or "settings reported %s, expected %s" % ([q for q in have if q not in want], [q for q in want if q not in have])
                continue
            b = ctx.scram(cli_args(a) + real + ["-o", "../ref.xml"], cwd=cwd, timeout=40)
            if b.code != 0:
                ctx.fail("reference", "exit %s: %s" % (b.code, b.err[:400].decode(errors="replace")), stop=True)
            d = report.diff(report.flatten(got), report.flatten(Report(core.rd(ctx.path("ref.xml")))), rel=0)
            if d:
                why = "%s" % d
                continue
            why = None
            break
        if why:
            ctx.fail("settings-differ", "project %s, command line %s: %s" % (P, C, why), stop=True)
        ctx.count("compared")
        ctx.count("overridden", sum(k in P for k in C))
        ctx.count("kept", sum(k not in C for k in P))
        ctx.sig(sorted(P.items(), key=repr), sorted(C.items(), key=repr))
        if len(P) > 1:
            ctx.count("nontrivial")
        ctx.sample("%s\n%s" % (args, core.rd(pfile).decode()))

    def rejected(self, ctx, r, what):
        out = core.rd(ctx.path("out.xml")) if os.path.exists(ctx.path("out.xml")) else b""
        if r.code != 1:
            ctx.fail("accepted", "exit %s for %s" % (r.code, what), stop=True)
        if not (r.err.strip() or r.out.strip()):
            ctx.fail("no-diagnostic", what)
        if out or b"<report" in r.out:
            ctx.fail("report-written", "a report in spite of %s" % what)
        ctx.count("rejected")

    def bad(self, ctx, rng, P, C, files, args, pfile, cwd, falses):
        """Exactly one unacceptable setting, in the project or on the command line."""
        if None in merge(P, C):
            P, C = {"probability": True}, {}
            args = args[-6:] if False else [a for a in args if False] + ["--project", pfile, "-o", "../out.xml"]
        ints = {"limit": ["-1", "99999999999", "1.5", "abc", "1e1", "2147483648"], "trials": ["0", "-5", "x", "2147483648", "1e9999"], "quantiles": ["0", "-1", "nan"], "bins": ["0", "-2", "0.5"], "seed": ["-1", "4294967296", "s"]}
        reals = {"mission": ["-1", "-1e-300", "nan", "abc", "NaN", "1h"], "time_step": ["-1", "nan", "-0.5", "ten"], "cut_off": ["-0.1", "1.0000001", "2", "nan", "x", "-inf"]}
        allv = dict(ints, **reals)
        if rng.random() < 0.5:
            kind = rng.choice(["value", "value", "value", "unknown", "clash", "twice", "novalue", "verbosity", "noproject", "noinput"])
            if kind == "value":
                k = rng.choice(sorted(allv))
                v = rng.choice(allv[k])
                args = [a for a in args]
                for i, a in enumerate(list(args)):  # drop an earlier mention
                    if a == CLI[k]:
                        args[i:i + 2] = [None, None]
                    elif a and a.startswith(CLI[k] + "="):
                        args[i] = None
                args = [a for a in args if a is not None] + ["%s=%s" % (CLI[k], v)]
                what = "%s=%s" % (k, v)
            elif kind == "unknown":
                args = args + [rng.choice(["--nonsense", "--bddd", "--approximation=mcub", "-q", "--limit=x", "--seed-value=3", "--mocus=yes"])]
                what = args[-1]
            elif kind == "clash":
                args = [a for a in args if a not in ("--bdd", "--zbdd", "--mocus", "--mcub", "--rare-event", "--prime-implicants")]
                x = rng.choice([["--bdd", "--zbdd"], ["--mocus", "--bdd"], ["--zbdd", "--mocus"], ["--mcub", "--rare-event"], ["--prime-implicants", "--zbdd"], ["--prime-implicants", "--mocus"],
                                ["--bdd", "--prime-implicants", "--mcub"], ["--bdd", "--prime-implicants", "--rare-event"]])
                rng.shuffle(x)
                args += x
                what = " ".join(x)
            elif kind == "twice":
                args = [a for a in args if "seed" not in a] if not any(a == "--seed" for a in args) else args
                args = args + (["--seed", "1"] if any(a.startswith("--seed") for a in args) else ["--seed", "1", "--seed", "2"])
                what = "--seed twice"
            elif kind == "novalue":
                args = args + [rng.choice(["--limit-order", "--mission-time", "--num-trials", "--cut-off"])]
                what = args[-1] + " without a value"
            elif kind == "verbosity":
                args = args + ["--verbosity", rng.choice(["8", "-1", "100", "x"])]
                what = " ".join(args[-2:])
            elif kind == "noproject":
                i = args.index("--project")
                args = args[:i + 1] + [rng.choice(["../nowhere.xml", "/nonexistent/p.xml", cwd])] + args[i + 2:]
                what = "project " + args[i + 1]
            else:
                args = args + ["../missing.xml"]
                what = "a missing input file"
        else:
            x = core.rd(pfile).decode()
            kind = rng.choice(["value", "value", "value", "algorithm", "approximation", "element", "prime", "order", "version", "missing", "attr", "flag", "malformed", "root", "sil", "nomodel"])
            if kind == "value":
                k = rng.choice(sorted(allv))
                v = rng.choice(allv[k] + [""])
                Q = {a: b for a, b in P.items() if a != k}
                if k == "time_step":
                    Q.pop("sil", None)
                Q[k] = "@@V@@"
                x = project_xml(rng, files, Q, falses).replace("@@V@@", v)
                what = "%s=%r in the project" % (k, v)
            elif kind == "algorithm":
                x = project_xml(rng, files, dict({k: v for k, v in P.items() if k not in ("prime",)}, algorithm=rng.choice(["BDD", "fta", "bdds", ""])), falses)
                what = "unknown algorithm"
            elif kind == "approximation":
                x = project_xml(rng, files, dict({k: v for k, v in P.items() if k not in ("prime",)}, approximation=rng.choice(["none", "MCUB", "", "exact"])), falses)
                what = "unknown approximation"
            elif kind == "prime":
                x = project_xml(rng, files, dict(P, **rng.choice([dict(prime=True, algorithm="zbdd"), dict(prime=True, algorithm="mocus"), dict(prime=True, algorithm="bdd", approximation="mcub")])), falses)
                what = "contradictory prime implicants in the project"
            elif kind == "sil":
                Q = {k: v for k, v in P.items() if k != "time_step"}
                x = project_xml(rng, files, dict(Q, sil=True), [f for f in falses if f != "sil"])
                what = "SIL without time step in the project"
            elif kind == "element":
                x = x.replace("</options>", rng.choice(["<foo/>", "<algorithm name='bdd'/><algorithm name='bdd'/>", "text", "<limits/><limits/>"]) + "</options>")
                what = "unknown element"
            elif kind == "order":
                x = x.replace("<options>", "<options><approximation name='mcub'/><algorithm name='bdd'/>")
                what = "misordered elements"
            elif kind == "version":
                import re
                x = re.sub(r'<scram[^>]*>', '<scram version="%s">' % rng.choice(["99.0.0", "0.99.0", "0.16.3", "0.17.0", "1.0.0", "1000.0.0", "x", "1", "99999999999.0.0", "0.4294967297.0", "a.b.c", "-1.0.0", "0.16.0.0"]), x, 1)
                what = "bad version"
            elif kind == "missing":
                x = x.replace("<model>", "<model><file>%s</file>" % rng.choice(["nowhere.xml", "/nonexistent/x.xml", "../nowhere.xml", ""]))
                what = "missing file in the project"
            elif kind == "attr":
                x = x.replace("<options>", "<options foo='1'>")
                what = "unknown attribute"
            elif kind == "flag":
                x = project_xml(rng, files, {k: v for k, v in P.items() if k not in FLAGS}).replace("<options>", "<options>", 1)
                import re
                x = re.sub(r"<analysis[^>]*/>", "", x)
                x = x.replace("<options></options>", "<options></options>")
                f = "<analysis %s='%s'/>" % (rng.choice(FLAGS + ("probabilities",)), rng.choice(["yes", "2", "TRUE", "on"]))
                i = x.find("<approximation")
                i = i if i >= 0 else x.find("<limits")
                i = i if i >= 0 else x.find("</options>")
                x = x[:i] + f + x[i:]
                what = f
            elif kind == "malformed":
                x = rng.choice([x[:len(x) // 2], x + "<", x.replace("</scram>", ""), "", " ", x.replace("<scram", "<scram a='1' a='2'", 1)])
                what = "malformed project"
            elif kind == "nomodel":
                import re
                x = re.sub(r"<model>.*</model>", "", x, flags=re.S)
                what = "project without a model"
            else:
                x = x.replace("<scram", "<scrum", 1).replace("</scram>", "</scrum>")
                what = "unknown root"
            ctx.write(pfile, x)
        if os.path.exists(ctx.path("out.xml")):
            os.unlink(ctx.path("out.xml"))
        r = ctx.scram(args, cwd=cwd, timeout=40)
        self.rejected(ctx, r, "%s: %s %s" % (kind, what, args))
        ctx.count("bad_kinds")
        ctx.sig("bad", kind, what[:40])
