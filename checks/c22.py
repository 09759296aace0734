import os, re, subprocess, time, xml.etree.ElementTree as ET
import core, build, hostile, options, rich, mef
from ft_common import *

PROJECT = """<?xml version="1.0"?>
<scram>
  <model><file>m.xml</file></model>
  <options>
    <algorithm name="%s"/>
    <analysis probability="%s" importance="%s" uncertainty="%s" ccf="%s" sil="%s"/>
    <approximation name="%s"/>
    <limits>
      <product-order>%s</product-order><mission-time>%s</mission-time><time-step>%s</time-step><cut-off>%s</cut-off><number-of-trials>%s</number-of-trials>
      <number-of-quantiles>%s</number-of-quantiles><number-of-bins>%s</number-of-bins><seed>%s</seed>
    </limits>
  </options>
</scram>
"""


class Check(core.BaseCheck):
    ID = "C22"
    QUICK, THOROUGH = 6000, 200000
    RULE = ("hostile inputs under ASan, UBSan and live assertions: schema-near and byte-level mutations of generated models of every construct and of the bundled models, random expressions and formulas with hostile numbers, documents aimed at "
            "single mechanisms (cycles, depth, width, entities, inclusion, encodings, files that are no files), mutated project files, hostile option values and garbage arguments; a part of the runs is repeated under valgrind's memcheck (uninitialised values); every run has to end with status 0 or 1, no signal or sanitizer "
            "report, and a diagnostic if and only if 1; non-trivial: an input accepted or rejected after the schema, distinct by the kind of mutation and the diagnostic")
    MIN = {"distinct": 300, "accepted": 400, "past_schema": 500, "schema": 300, "kind:special": 250, "kind:cli": 150, "kind:project": 200, "kind:bytes": 250, "kind:tree": 1000, "memcheck": 60}
    ASSUMPTIONS = ["requests for astronomically many trials, bins or time points are excluded: they are refusals of resources, not crashes", "a slow analysis of a mutated model is no hang; a slow validation is"]

    def build(self):
        env = build.build_core("asan")
        env["plain"] = build.build_core("plain")["scram"]  # for memcheck, which needs an uninstrumented build
        return env

    def label(self):
        return "c22"

    def memcheck(self, ctx, args):
        """Uninitialised values, which AddressSanitizer does not see."""
        log = ctx.path("memcheck.log")
        cmd = ["valgrind", "-q", "--show-mismatched-frees=no", "--error-exitcode=99", "--num-callers=20", "--log-file=" + log, ctx.env["plain"]] + args
        try:
            with open(ctx.path("memcheck.out"), "wb") as out:
                code = subprocess.run(cmd, cwd=ctx.dir, stdin=subprocess.DEVNULL, stdout=out, stderr=out, timeout=150).returncode
        except subprocess.TimeoutExpired:
            return ctx.count("memcheck_slow")
        text = core.rd(log).decode(errors="replace")
        if code == 99 or "ninitialised" in text or "Invalid " in text:
            m = re.search(r"(?:at|by) 0x\w+: ((?:.*scram::.*|main) \(\w+\.(?:cc|h):\d+\))", text)
            ctx.fail("memcheck:%s" % re.sub(r"[^\w:]+", "-", re.sub(r":\d+\)", ")", m.group(1)))[:90] if m else "memcheck", "args %s\n%s" % (args, text[:2500]))
        ctx.count("memcheck")

    def case(self, ctx, rng, idx):
        if idx < len(hostile.DEEP):
            return self.deep(ctx, hostile.DEEP[idx])
        kind = rng.choice(["tree"] * 7 + ["bytes"] * 2 + ["special"] * 2 + ["cli", "project"] * 1 + ["project"])
        ctx.count("kind:" + kind)
        detail, files, args = "", [], []
        if kind in ("tree", "bytes", "cli", "project"):
            docs = self.documents(rng)
            if kind == "tree":
                donors, roots = [], []
                for d in docs:
                    try:
                        roots.append(ET.fromstring(d))
                    except ET.ParseError:
                        roots.append(None)
                if rng.random() < 0.5:
                    try:
                        donors.append(ET.fromstring(rng.choice(hostile.corpus())[1]))
                    except ET.ParseError:
                        pass
                donors += [r for r in roots if r is not None]
                ops = []
                for i, r in enumerate(roots):
                    if r is not None and donors and (len(roots) == 1 or rng.random() < 0.7):
                        ops += hostile.mutate_tree(r, rng, donors, rng.choice([1, 1, 2, 3, 6]))
                        docs[i] = self.text(r)
                detail = "+".join(sorted(set(ops)))
                for o in ops:
                    ctx.count("op:" + o)
            elif kind == "bytes":
                i = rng.randrange(len(docs))
                d = docs[i] if isinstance(docs[i], bytes) else docs[i].encode()
                docs[i] = hostile.mutate_bytes(d, rng, rng.choice([1, 1, 2, 4, 8]))
            files = ["m%d.xml" % i if len(docs) > 1 else "m.xml" for i in range(len(docs))]
            for f, d in zip(files, docs):
                ctx.write(f, d)
        else:
            detail, files = hostile.special(rng, ctx.write, ctx.dir)
        if kind == "cli":
            args = hostile.hostile_cli(rng, rng.choice([1, 2, 3, 5]))
            ctx.count("args")
        elif kind == "project":
            args = self.project(ctx, rng, files)
        else:
            o = options.Options(rng)
            if rng.random() < 0.3:
                o.prime = False
            args = o.cli(rng)
        if not any(a.startswith("-o") or a.startswith("--o") for a in args) and rng.random() < 0.5:
            args += ["-o", "out.xml"]
        if kind != "project":
            args = args + files
        t0 = time.time()
        r = ctx.scram(args, timeout=10, slow_ok=True)
        if idx % 50 == 49 and r.code in (0, 1) and time.time() - t0 < 1.5:
            self.memcheck(ctx, args)
        if r.timeout:
            r = ctx.scram(args + ["--validate"], timeout=20)
            ctx.count("slow_but_validated")
            return
        err = r.err.decode(errors="replace")
        if r.code not in (0, 1):
            ctx.fail("exit:%d" % r.code, "exit %d args %s\n%s" % (r.code, args, err[-1500:]), stop=True)
        if r.code == 1:
            if not err.strip():
                ctx.fail("silent", "exit 1 without a diagnostic: args %s" % args, stop=True)
            if "Logic Error" in err:
                m = re.search(r"Throw in function (.*?)\n", err)
                w = re.search(r"what: (.*)|std::exception::what: (.*)", err)
                ctx.fail("logic-error:%s" % re.sub(r"[^\w :]", "", (w.group(0) if w else ""))[:60], "an input error reported as an internal one: args %s\n%s" % (args, err[-1500:]), stop=True)
            m = re.search(r"scram::(?:mef::|xml::|core::)*(\w+)\s*\n", err)
            cls = m.group(1) if m else ("option" if "Option error" in err or "Usage" in err else "other")
            ctx.count("rejected:" + cls)
            if cls == "other":
                ctx.count("other:" + err.strip()[:60].split("\n")[0])
            schema = cls == "ValidityError" and re.search(r"Did not expect|Expecting |failed to validate|Invalid attribute|Extra |Type .* doesn't allow|has extra content|Invalid sequence|Element .* has|Datatype element|validation", err) is not None
            if os.environ.get("C22_SHOW") and cls == "ValidityError":
                ctx.count(("S:" if schema else "P:") + re.sub(r"[\d.]+", "N", err.strip().split("\n")[-1])[:50])
            ctx.count("schema" if schema else "parse" if cls in ("ParseError",) else "past_schema")
            if not schema:
                ctx.sig(kind, detail, cls, re.sub(r"[\d.]+", "N", err.strip().split("\n")[-1])[:60])
        else:
            if err.strip() and "--verbosity" not in " ".join(args) and ("rror" in err and "WARNING" not in err):
                ctx.fail("diagnostic-on-success", "exit 0 with an error text: args %s\n%s" % (args, err[-1000:]))
            ctx.count("accepted")
            ctx.sig(kind, detail, "accepted", len(r.out) // 500)
        ctx.sample("args %s\n%s" % (args, core.rd(ctx.path("m.xml"))[:800].decode(errors="replace")))

    def deep(self, ctx, kind):
        """Definitions nested too deep for recursion: 2,000 levels have to work, 100,000 must not crash."""
        for n in (2000, 100000):
            ctx.write("m.xml", hostile.deep(kind, n))
            r = ctx.scram(["m.xml", "-o", "out.xml"] + (["--validate"] if kind == "gate" and n < 10000 else []), timeout=60, crash_ok=True)
            ctx.count("deep")
            if r.timeout:
                continue
            if r.sig or b"Sanitizer" in r.err:
                what = "stack-overflow" if b"stack-overflow" in r.err or r.sig == 11 else core.crash_key(r.err)
                ctx.fail("deep-%s-%d:%s" % (kind, n, what), "%d levels of nested %s definitions: signal %d\n%s" % (n, kind, r.sig, r.err.decode(errors="replace")[:1500]), stop=True)
            if r.code not in (0, 1) or (n == 2000 and r.code):
                ctx.fail("deep-%s-%d:exit%d" % (kind, n, r.code), "%d levels of nested %s definitions: %s" % (n, kind, r.err[:800]))
        ctx.sig("deep", kind)

    def text(self, r):
        import random
        try:
            return ET.tostring(r, encoding="unicode")
        except Exception:
            return "<opsa-mef/>"

    def documents(self, rng):
        if rng.random() < 0.35:
            return [rng.choice(hostile.corpus())[1]]
        m = rich.Rich(rng, small=rng.random() < 0.85)
        try:
            sp, docs = rich.spell(m, rng, nfiles=rng.choice([1, 1, 1, 2]))
        except rich.Unspellable:
            return ["<opsa-mef/>"]
        return list(docs)

    def project(self, ctx, rng, files):
        b = lambda: rng.choice(["true", "false", "1", "0", "", "yes"] if rng.random() < 0.04 else ["true", "false"])
        num = lambda good: rng.choice(hostile.NUMS) if rng.random() < 0.05 else good
        vals = [rng.choice(["bdd", "zbdd", "mocus"]), b(), b(), b(), b(), b(), rng.choice(["none", "rare-event", "mcub"]), num("4"), num("100"), num("10"), num("1e-8"), num("50"), num("5"), num("5"), num("3")]
        for i, o in ((11, "--num-trials"), (12, "--num-quantiles"), (13, "--num-bins")):
            if not hostile.moderate(o, vals[i]):
                vals[i] = "7"
        try:
            if not abs(float(vals[8]) / float(vals[9])) <= 5000:
                vals[9] = "0"
        except (ValueError, ZeroDivisionError):
            pass
        t = PROJECT % tuple(vals)
        if rng.random() < 0.3:
            t = t.replace('<approximation name="%s"/>' % vals[6], "")
        if len(files) > 1:
            t = t.replace("<file>m.xml</file>", "".join("<file>%s</file>" % f for f in files))
        r = rng.random()
        if r < 0.35:
            t = hostile.mutate_bytes(t.encode(), rng, rng.choice([1, 2, 3]))
            for bad in (rb"number-of-trials>([^<]*)<", rb"number-of-quantiles>([^<]*)<", rb"number-of-bins>([^<]*)<", rb"time-step>([^<]*)<", rb"mission-time>([^<]*)<"):
                for m in re.findall(bad, t):
                    try:
                        if float(m) > 20000 or 0 < float(m) < 1e-3:
                            return self.project(ctx, rng, files)
                    except ValueError:
                        pass
        elif r < 0.7:
            root = ET.fromstring(t)
            els = list(root.iter())
            parent = {c: p for p in els for c in p}
            for _ in range(rng.choice([1, 2])):
                e = rng.choice(els[1:])
                op = rng.choice(["del", "dup", "text", "move", "attr"])
                if op == "del" and e in list(parent[e]):
                    parent[e].remove(e)
                elif op == "dup":
                    import copy
                    parent[e].append(copy.deepcopy(e))
                elif op == "text":
                    if e.tag in ("file",):
                        e.text = rng.choice(["", " ", "nofile", ".", "/", "m.xml ", "./m.xml", "x" * 5000, "..\\m.xml", "é"])
                    elif e.tag not in ("number-of-trials", "number-of-quantiles", "number-of-bins", "time-step", "mission-time"):
                        e.text = rng.choice(["", " ", "x", "-1", "1e400"])
                elif op == "move":
                    if e in list(parent[e]):
                        parent[e].remove(e)
                        rng.choice([x for x in els if x not in set(e.iter())]).append(e)
                elif e.attrib:
                    k = rng.choice(sorted(e.attrib))
                    e.set(k, rng.choice(hostile.NAMES + hostile.NUMS))
            t = ET.tostring(root, encoding="unicode")
        ctx.write("project.xml", t)
        a = ["--project", "project.xml"]
        if rng.random() < 0.2:
            a += hostile.hostile_cli(rng, 1)
        return a
