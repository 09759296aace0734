"""Runs the GUI driver (the real GUI under AddressSanitizer, offscreen) and takes its verdicts."""
import os, re, subprocess
import core, build_gui

ENV = {"QT_QPA_PLATFORM": "offscreen", "QT_FATAL_CRITICALS": "1", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8",
       "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:malloc_context_size=12:handle_abort=0"}


def environment(ctx, env=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("QT_", "XDG_", "DISPLAY", "WAYLAND"))}
    e.update(ENV)
    e.update(env or {})
    e["GUI_SETTINGS"] = ctx.path("settings")
    e["HOME"] = e["XDG_CONFIG_HOME"] = e["XDG_CACHE_HOME"] = e["XDG_DATA_HOME"] = ctx.path("home")
    e["XDG_RUNTIME_DIR"] = ctx.path("run")
    for d in ("settings", "home", "run"):
        os.makedirs(ctx.path(d), exist_ok=True)
    os.chmod(ctx.path("run"), 0o700)
    return e


class GuiCheck(core.BaseCheck):
    def build(self):
        return build_gui.build_gui()

    def drive(self, ctx, args, timeout=120, env=None):
        e = environment(ctx, env)
        cmd = [self.env["gui"]] + [str(a) for a in args]
        ctx.cmds.append(["gui_driver"] + cmd[1:])
        ctx.count("executions")
        for t in (timeout, timeout * 3):
            try:
                p = subprocess.run(cmd, cwd=ctx.dir, env=e, timeout=t, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=core._stack)
            except subprocess.TimeoutExpired:
                continue
            out, err = p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace")
            for n, v in re.findall(r"^COUNT (\S+) (\d+)$", out, re.M):
                ctx.count(n.replace("-", "_"), int(v))
            return p.returncode, out, err
        ctx.fail("hang", "no result in %d s: %s" % (timeout * 3, args), stop=True)

    def verdict(self, ctx, r, what):
        """Fails the case unless the driver went through; returns its output."""
        code, out, err = r
        m = re.search(r"^VIOLATION (.*?): (.*)$", out, re.M)
        if m:
            steps = re.findall(r"^STEP (.*)$", out, re.M)
            ctx.fail(m.group(1), "%s: %s (last steps: %s)" % (what, m.group(2)[:700], " / ".join(steps[-6:])[:900]), stop=True)
        if code == 0 and "DONE 0" in out:
            return out
        if "AddressSanitizer" in err or "runtime error:" in err:
            ctx.fail(core.crash_key(err.encode()), "%s: %s" % (what, err[-2800:]), stop=True)
        m = re.search(r"Assertion failure: (.*)", err) or re.search(r"Assertion (.*) failed", err) or re.search(r"terminate called.*\n.*what\(\):.*", err)
        ctx.fail("crash:%s" % (m.group(0).replace("\n", " ")[:150] if m else code), "%s: exit %s: %s" % (what, code, err[-2500:]), stop=True)
