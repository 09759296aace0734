import os, re, subprocess, xml.etree.ElementTree as ET
import core, rich, options, report, ft_common


def normal(data):
    """The report without time stamps and durations."""
    s = data.decode("utf-8", errors="replace")
    s = re.sub(r"<time>[^<]*</time>", "<time/>", s)
    return re.sub(r"<(products|probability|importance|uncertainty)>[^<]*</\1>", r"<\1/>", s)


def canon(data):
    """Structure and text of the normalised report regardless of the indentation."""
    root = ET.fromstring(normal(data))

    def walk(e):
        return (e.tag, tuple(e.attrib.items()), (e.text or "").strip(), tuple(walk(c) for c in e))
    return walk(root)


def first_diff(a, b):
    x, y = a.splitlines(), b.splitlines()
    for i in range(max(len(x), len(y))):
        u, v = x[i] if i < len(x) else None, y[i] if i < len(y) else None
        if u != v:
            return "line %d: %r against %r" % (i + 1, u, v)
    return "equal lines"


class Check(core.BaseCheck):
    ID = "C16"
    QUICK, THOROUGH = 600, 10000
    DRIVER_ENV = {"ASAN_OPTIONS": core.SAN_ENV["ASAN_OPTIONS"].replace("quarantine_size_mb=8", "quarantine_size_mb=0:thread_local_quarantine_size_kb=0")}
    RULE = ("random models of every construct under random settings, each analysed by five to seven processes with differently shuffled heaps, one freshly executed process, other verbosity, indentation, "
            "destination and after other analyses in one process; the reports must agree byte by byte apart from the time stamp and durations; non-trivial: a group of agreeing reports with at least two "
            "results, distinct by the report")
    MIN = {"distinct": 400, "processes": 2000, "comparisons": 2000}
    ASSUMPTIONS = ["heap layouts are sampled (shuffled free lists of the allocator), not enumerated"]

    def case(self, ctx, rng, idx):
        sampling = idx % 4 == 3  # Many deviates: the order of sampling matters.
        m = rich.Rich(rng, small=rng.random() < 0.5, nft=rng.choice([1, 2, 3, 4]), deviates=0.7 if sampling else True)
        sp, docs = rich.spell(m, rng, plain=rng.random() < 0.2, nfiles=rng.choice([1, 1, 2]))
        files = [ctx.write("m%d.xml" % i, d) for i, d in enumerate(docs)]
        o = options.Options(rng)
        if not m.coherent and o.algorithm in ("mocus", "zbdd") and len(m.basics) > 9:
            o.algorithm, o.prime = "bdd", False
        if o.prime and len(m.basics) > 12 or any(k[0] == "substitution" for k in m.items):
            o.prime = False
        if sampling:
            o.uncertainty, o.trials = True, o.trials or 100
        cli = o.cli(rng)
        base = None
        n = rng.choice([4, 5, 6])
        for k in range(n):
            out = ctx.path("r%d.xml" % k)
            extra = [] if not k else (["--verbosity", str(rng.randint(0, 7))] if rng.random() < 0.4 else [])
            to_stdout = k > 0 and rng.random() < 0.25
            indent = k == 0 or rng.random() < 0.8
            args = cli + extra + ([] if indent else ["--no-indent"]) + ([] if to_stdout else ["-o", out]) + files
            if k == n - 1 and rng.random() < 0.25:
                other = [x for x in options.Options(rng, prime=False).cli(rng)]
                pre = other + ["-o", ctx.path("other.xml")] + files
                r = ctx.run("hist", pre + ["--then"] + cli + ["-o", out] + files, timeout=40)
                codes = re.findall(rb"@@HIST (\d+) (-?\d+)", r.err)
                if len(codes) != 2:
                    ctx.fail("history", "no second run: %s" % r.err[-500:])
                    return
                r.code = int(codes[1][1])
                extra, to_stdout, indent = ["after another analysis"], False, True
                ctx.count("history_runs")
            else:
                r = ctx.run("scramp", [str(rng.randrange(1, 10 ** 9))] + args, timeout=30)
            ctx.count("processes")
            data = r.out if to_stdout else core.rd(out)
            if k == 0:
                if r.code != 0:
                    ft_common.load(ctx, r, out)
                base = (r.code, data, normal(data))
                continue
            self.compare(ctx, base, r.code, data, indent, "seeded heap, %s %s" % (extra, "stdout" if to_stdout else ""), r.err)
        if rng.random() < 0.5:
            out = ctx.path("fresh.xml")
            env = dict(os.environ, **core.SAN_ENV)
            env["PADDING"] = "x" * rng.randrange(5000)
            p = subprocess.run([self.env["scram"]] + cli + ["-o", out] + files, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=ctx.dir, timeout=120)
            ctx.count("processes")
            ctx.count("fresh_processes")
            self.compare(ctx, base, p.returncode, core.rd(out), True, "fresh process", p.stderr)
        res = ET.fromstring(base[1]).find("results")
        nres = 0 if res is None else len(res)
        if nres >= 2:
            ctx.sig(base[2])
        ctx.sample("%s\n%s" % (cli, docs[0][:500]))

    def compare(self, ctx, base, code, data, indent, what, err):
        ctx.count("comparisons")
        if code != base[0]:
            ctx.fail("exit", "%s: exit %d against %d: %s" % (what, code, base[0], err[-300:]))
            return
        if indent and normal(data) == base[2]:
            return
        try:
            if canon(data) == canon(base[1]):
                if indent:
                    ctx.fail("whitespace", "%s: %s" % (what, first_diff(base[2], normal(data))))
                return
        except ET.ParseError as x:
            ctx.fail("unparsable", "%s: %s" % (what, x))
            return
        a, b = report.flatten(report.Report(base[1])), report.flatten(report.Report(data))
        if list(a) != list(b) and set(a) == set(b):
            key = "section-order"
        elif a == b:
            key = "entry-order"
        else:
            key = "values"
        norm = base[2] if indent else re.sub(r">\s+<", ">\n<", base[2])
        ctx.fail(key, "%s: %s\n%s" % (what, first_diff(norm, normal(data) if indent else normal(data).replace("><", ">\n<")), report.diff(a, b, rel=0)))
