import os, re, shutil, subprocess
import core, build, mef, rich, options
from ft_common import *
import c15

BIG = b""


def norm(b):
    """A report without its times."""
    b = re.sub(rb"<time>[^<]*</time>", b"<time/>", b)
    b = re.sub(rb"(<(?:products|probability|importance|uncertainty)>)[^<]*(</)", rb"\1\2", b)
    return b


class Check(core.BaseCheck):
    ID = "C28"
    QUICK, THOROUGH = 900, 25000
    RULE = ("reports (file and stdout) and serialised models (stdout and file) of random models from a few hundred bytes to megabytes, written with the file size limited at a random or boundary byte (every later write fails), to a full "
            "device, closed or reader-less stdout, directories, missing or looping paths, and, with strace, with each write, close or open of the output failing by number and errno; the reference is the output without the fault: exit 0 only "
            "if the destination holds all of it, 1 with a diagnostic otherwise, never 1 without a fault, input files untouched; non-trivial: a fault that hit, distinct by destination kind, fault and position class")
    MIN = {"distinct": 40, "faults_hit": 400, "limit_runs": 250, "complete": 60, "serialized": 100, "devices": 60}
    ASSUMPTIONS = ["the destination given by the user may be overwritten, whatever it is", "kernel-buffered data lost after a successful close is outside of the tool"]

    def model(self, ctx, rng, what):
        r = rng.random()
        if r < 0.55:
            t, _, _ = gen(rng, [2, 4, 6, 9], True)
            return ctx.write("m.xml", mef.tree_xml(t))
        if r < 0.8:  # A report of many products.
            n = rng.choice([20, 60, 150, 400])
            b = ["b%d" % i for i in range(n)]
            t = mef.Tree()
            t.basics = {x: 0.01 for x in b}
            t.gates["top"] = mef.Gate("atleast", [(False, "b", x) for x in b[:rng.choice([12, 20])]], 2)
            t.gates["g2"] = mef.Gate("or", [(False, "b", x) for x in b])
            return ctx.write("m.xml", mef.tree_xml(t))
        return ctx.write("m.xml", mef.tree_xml(gen(rng, [3, 5], what.startswith("serialize"))[0]))

    def case(self, ctx, rng, idx):
        what = rng.choice(["report-file", "report-file", "report-stdout", "serialize-stdout", "serialize-file"])
        m = self.model(ctx, rng, what)
        before = core.rd(m)
        opts = []
        if what.startswith("report"):
            opts = rng.choice([[], ["--probability"], ["--importance"], ["--probability", "--time-step", "87.6"], ["--no-indent"], ["--uncertainty", "--num-trials", "20"]])
            if "--time-step" in opts and rng.random() < 0.5:
                opts = opts + ["--sil"]

        def run(limit, stdout, dest, **kw):
            if what == "serialize-file":
                a = ["serialize", dest, m]
            elif what == "serialize-stdout":
                a = ["--serialize", m]
            elif what == "report-file":
                a = opts + ["-o", dest, m]
            else:
                a = opts + [m]
            return ctx.run("faulty", [limit, stdout] + a, **kw)
        file = what.endswith("file")
        r = run("", "", "good")
        ref = core.rd(ctx.path("good")) if file else r.out
        if r.code != 0:
            ctx.fail("good:%s:%d" % (what, r.code), "no fault, exit %d: %s" % (r.code, r.err[-800:]), stop=True)
        if not ref.rstrip().endswith(b">") or len(ref) < 40:
            ctx.fail("good:%s:truncated" % what, "no fault, %d bytes" % len(ref), stop=True)
        if what.startswith("serialize"):
            ctx.count("serialized")
        for _ in range(3):
            size = len(ref)
            kind = rng.choice(["limit", "limit", "limit", "limit", "device", "dest", "strace"])
            dest, stdout, limit, hit = "out", "", "", None
            sigk = kind
            if kind == "limit":
                n = rng.choice([0, 1, rng.randrange(size), rng.randrange(size), rng.randrange(size), 4096 * rng.randint(1, size // 4096 + 1), size - 1, size - rng.randint(2, 60), size, size + rng.randint(1, 4000), size + 5000])
                n = max(n, 0)
                if rng.random() < 0.3:
                    ctx.write("out", b"old content " * 400)   # A longer or shorter previous file.
                limit = str(n)
                slack = 0 if what.startswith("serialize") else 200
                hit = True if n < size - slack else False if n >= size + slack else None
                ctx.count("limit_runs")
                sigk = ("limit", "0" if n == 0 else "first" if n < 4096 else "last" if size - n < 4096 else "mid", size < 4096)
            elif kind == "device":
                ctx.count("devices")
                if file:
                    dest = "/dev/full"
                else:
                    stdout = rng.choice(["/dev/full", "pipe", "closed"])
                hit = True
                sigk = (dest, stdout)
            elif kind == "dest":
                if not file:
                    continue
                c = rng.choice(["dir", "missing", "loop", "long", "empty", "file-as-dir", "dangling", "link", "trailing"])
                sigk = c
                hit = True
                if c == "dir":
                    os.makedirs(ctx.path("d"), exist_ok=True)
                    dest = rng.choice(["d", "d/", "."])
                elif c == "missing":
                    dest = "no/such/out.xml"
                elif c == "loop":
                    if not os.path.islink(ctx.path("loop")):
                        os.symlink("loop", ctx.path("loop"))
                    dest = "loop"
                elif c == "long":
                    dest = "x" * 300
                elif c == "empty":
                    dest = ""
                elif c == "file-as-dir":
                    dest = "m.xml/out.xml"
                elif c == "dangling":
                    if not os.path.islink(ctx.path("dl")):
                        os.symlink("nowhere/x", ctx.path("dl"))
                    dest = "dl"
                elif c == "trailing":
                    dest = "newname/"
                else:
                    if not os.path.islink(ctx.path("sl")):
                        os.symlink("target", ctx.path("sl"))
                    dest, hit = "sl", False
            else:
                if not file or what == "serialize-file" or not self.env.get("strace"):
                    continue
                self.strace(ctx, rng, m, opts, ref, what)
                continue
            r = run(limit, stdout, dest)
            got = core.rd(os.path.join(ctx.dir, dest)) if file and not dest.startswith("/dev") else r.out if stdout == "" and not file else b""
            self.judge(ctx, what, r, got, ref, hit, "%s %s limit=%s stdout=%s dest=%s size=%d" % (what, opts, limit, stdout, dest, size), sigk)
            if core.rd(m) != before:
                ctx.fail("input-damaged", "%s: the input file changed" % what)
        ctx.sample(before.decode()[:600])

    def judge(self, ctx, what, r, got, ref, hit, note, sigk):
        if r.code == 0:
            if norm(got) != norm(ref):
                ctx.fail("lost:%s" % what, "exit 0, but the destination holds %d of %d bytes: %s; stderr %r" % (len(got), len(ref), note, r.err[-300:]))
            if hit:
                ctx.fail("unreported:%s" % what, "exit 0 although the output could not be written: %s" % note)
            ctx.count("complete")
        elif r.code == 1:
            if not r.err.strip():
                ctx.fail("silent:%s" % what, "exit 1 without a diagnostic: %s" % note)
            if hit is False:
                ctx.fail("spurious:%s" % what, "exit 1 although nothing failed: %s %s" % (note, r.err[-500:]))
            ctx.count("faults_hit")
            ctx.sig(what, sigk)
        else:
            ctx.fail("exit:%s:%d" % (what, r.code), "exit %d: %s %s" % (r.code, note, r.err[-500:]))

    def strace(self, ctx, rng, m, opts, ref, what):
        """The CLI under strace, one system call on the output failing."""
        calls = rng.choice(["write", "write", "close", "openat"])
        errno = rng.choice({"write": ["ENOSPC", "EIO", "EDQUOT", "EFBIG"], "close": ["EIO", "ENOSPC", "EDQUOT"], "openat": ["EACCES", "EMFILE", "EROFS", "ENOSPC", "EPERM"]}[calls])
        nw = len(ref) // 4096 + 1
        when = rng.randint(1, nw + 1) if calls == "write" else 1
        out = ctx.path("st.xml")
        args = ["strace", "-qq", "-o", ctx.path("trace"), "-P", out, "-e", "trace=%s" % calls, "-e", "inject=%s:error=%s:when=%d" % (calls, errno, when), self.env["scram"]] + opts + ["-o", out, m]
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1", LC_ALL="C")
        try:
            p = subprocess.run(args, cwd=ctx.dir, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        except subprocess.TimeoutExpired:
            ctx.count("strace_slow")
            return
        ctx.count("strace_runs")
        trace = core.rd(ctx.path("trace")).decode(errors="replace")
        if b"strace:" in p.stderr or not os.path.exists(ctx.path("trace")):
            ctx.count("strace_unusable")
            return
        hit = "(INJECTED)" in trace
        r = core.Res(p.returncode, 0, False, p.stdout, p.stderr, args, ctx.dir)
        if hit:
            ctx.count("injected_" + calls)
        self.judge(ctx, what, r, core.rd(out), ref, hit, "strace %s:%s:%d %s; %s" % (calls, errno, when, opts, trace[-300:]), (calls, errno, "first" if when == 1 else "later"))

    def build(self):
        env = build.build_core("asan")
        env["strace"] = shutil.which("strace")
        return env
