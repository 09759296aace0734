"""The main window driven like a user, judged against the documents it reads and writes (harness/gui_window.cc)."""
import json, os, re, subprocess, threading
import xml.etree.ElementTree as ET
from fractions import Fraction
import core, gui_common, guimodel, report
import importlib.util

_s = importlib.util.spec_from_file_location("c31", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c31.py"))
c31 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c31)

CONN = ["and", "or", "atleast", "xor", "not", "nand", "nor", "null"]
SAVE, DISCARD, CANCEL, YES = 0x800, 0x800000, 0x400000, 0x4000
HOUSE, BASIC, UNDEV, GATE = range(4)


class Session:
    """A running main window that takes one line per action."""

    def __init__(self, check, ctx):
        self.ctx, self.log = ctx, []
        self.err = open(ctx.path("gui.err"), "w+b")
        env = gui_common.environment(ctx)
        self.p = subprocess.Popen([check.env["gui"], "window", "/dev/stdin"], cwd=ctx.dir, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, preexec_fn=core._stack)
        self.tail = []
        ctx.count("executions")
        ctx.count("sessions")

    def send(self, **step):
        self.log.append(json.dumps(step, ensure_ascii=False))
        self.ctx.cmds.append(["window", self.log[-1]])
        t = threading.Timer(150, self.p.kill)
        t.start()
        try:
            self.p.stdin.write((json.dumps(step) + "\n").encode())
            self.p.stdin.flush()
            while True:
                l = self.p.stdout.readline().decode(errors="replace")
                if not l:
                    break
                if l.startswith("W "):
                    self.ctx.count("steps")
                    return json.loads(l[2:])
                self.tail.append(l)
        except OSError:
            pass
        finally:
            slow = not t.is_alive()
            t.cancel()
        self.p.wait()
        if slow:
            self.ctx.fail("hang:" + step["op"], "no answer within 150 s: " + self.log[-1], stop=True)
        self.finish_bad()

    def finish_bad(self):
        self.p.wait()
        rest = "".join(self.tail) + self.p.stdout.read().decode(errors="replace")
        self.err.seek(0)
        err = self.err.read().decode(errors="replace")
        self.check_out(rest, err)
        self.ctx.fail("window-died", "exit %s after %s: %s" % (self.p.returncode, self.log[-3:], err[-1500:]), stop=True)

    def check_out(self, out, err):
        what = "after " + " ; ".join(self.log[-4:])
        m = re.search(r"^VIOLATION (.*?): (.*)$", out, re.M)
        if m:
            self.ctx.fail(m.group(1), "%s %s" % (m.group(2)[:900], what[:1500]), stop=True)
        if "AddressSanitizer" in err or "runtime error:" in err:
            self.ctx.fail(core.crash_key(err.encode()), "%s: %s" % (what[-800:], err[-2000:]), stop=True)
        m = re.search(r"Assertion failure: (.*)", err) or re.search(r"Assertion (.*) failed", err) or re.search(r"terminate called.*\n.*what\(\):.*", err)
        if m:
            self.ctx.fail("crash:%s" % m.group(0).replace("\n", " ")[:150], "%s: %s" % (what, err[-1500:]), stop=True)

    def end(self):
        self.p.stdin.close()
        t = threading.Timer(150, self.p.kill)
        t.start()
        out = "".join(self.tail) + self.p.stdout.read().decode(errors="replace")
        self.p.wait()
        t.cancel()
        for n, v in re.findall(r"^COUNT (\S+) (\d+)$", out, re.M):
            self.ctx.count(n.replace("-", "_"), int(v))
        if self.p.returncode or "DONE 0" not in out:
            self.tail = [out]
            self.finish_bad()
        self.err.seek(0)
        self.check_out(out, self.err.read().decode(errors="replace"))

    def kill(self):
        try:
            self.p.kill()
            self.p.wait()
        except OSError:
            pass
        self.err.close()


# ---- documents
def heads(el):
    l = el.find("label")
    a = el.find("attributes")
    return {"label": (l.text or "") if l is not None else "", "attrs": sorted((x.get("name"), x.get("value"), x.get("type") or "") for x in a) if a is not None else []}


def read_expr(el):
    if el is None:
        return None
    if el.tag in ("float", "int"):
        return ("const", float(el.get("value")))
    if el.tag == "bool":
        return ("const", 1.0 if el.get("value") == "true" else 0.0)
    if el.tag == "exponential":
        return ("exponential",) + tuple(read_expr(x) for x in el)
    return (el.tag,)


def parse(data):
    """What a document says, whatever its layout."""
    root = ET.fromstring(data)
    s = {"name": root.get("name") or "", "head": heads(root), "basic": {}, "house": {}, "gate": {}, "tree": {}}

    def take(el, tree):
        n = el.get("name")
        if el.tag == "define-basic-event":
            e = [x for x in el if x.tag not in ("label", "attributes")]
            put(s["basic"], n, dict(heads(el), expr=read_expr(e[0] if e else None)))
        elif el.tag == "define-house-event":
            c = el.find("constant")
            put(s["house"], n, dict(heads(el), state=c is not None and c.get("value") == "true"))
        elif el.tag == "define-gate":
            f = [x for x in el if x.tag not in ("label", "attributes")][0]
            if f.tag in CONN and f.tag != "null":
                g = (f.tag, int(f.get("min")) if f.get("min") else None, frozenset(x.get("name") for x in f))
                if len(g[2]) != len(f):
                    raise ValueError("duplicate arguments in " + n)
            else:
                g = ("null", None, frozenset([f.get("name")]))
            put(s["gate"], n, dict(heads(el), f=g, tree=tree))

    def put(t, n, v):
        if any(n in s[k] for k in ("basic", "house", "gate")):
            raise ValueError("two definitions of " + n)
        t[n] = v

    for el in root:
        if el.tag == "define-fault-tree":
            s["tree"][el.get("name")] = heads(el)
            for x in el:
                take(x, el.get("name"))
        elif el.tag == "model-data":
            for x in el:
                take(x, None)
    return s


def merge(a, b):
    s = copy(a)
    for k in ("basic", "house", "gate", "tree"):
        s[k].update(b[k])
    return s


def copy(s):
    r = {k: {n: dict(v) for n, v in t.items()} if k in ("basic", "house", "gate", "tree") else t for k, t in s.items()}
    r["roots"] = dict(s.get("roots", {}))
    return r


def diff(a, b):
    for k in ("name", "head"):
        if a[k] != b[k]:
            return "%s %r instead of %r" % (k, b[k], a[k])
    for k in ("tree", "gate", "basic", "house"):
        for n in sorted(set(a[k]) | set(b[k])):
            if a[k].get(n) != b[k].get(n):
                return "%s %s is %r instead of %r" % (k, n, b[k].get(n), a[k].get(n))


def undeveloped(e):
    return any(a[:2] == ("flavor", "undeveloped") for a in e["attrs"])


def flat(s):
    return " ".join(re.sub("[\x00-\x08\x0e-\x1f\ufffe\uffff]", "", s).split())


def kind_of(s, n):
    return next((k for k in ("gate", "basic", "house") if n in s[k]), None)


def parents(s, n):
    return [g for g, v in s["gate"].items() if n in v["f"][2]]


def reaches(s, a, b):
    """Gate a depends on event b (or is it)."""
    todo, seen = [a], set()
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if x in seen or x not in s["gate"]:
            continue
        seen.add(x)
        todo += s["gate"][x]["f"][2]
    return False


def tops(s, tree):
    own = [g for g, v in s["gate"].items() if v["tree"] == tree]
    used = set().union(*[s["gate"][g]["f"][2] for g in own]) if own else set()
    return [g for g in own if g not in used]


def same_rate(a, b):
    try:
        return float(a) == float(b)
    except ValueError:
        return False


def number(t):
    return float(t)


class Check(gui_common.GuiCheck):
    ID = "C25"
    QUICK, THOROUGH = 500, 12000
    RULE = ("sessions of user actions in the real main window: a dialog offers OK exactly for valid data, an accepted dialog changes the document as entered and nothing else, an unchanged one changes nothing; "
            "undo and redo bring documents back; what is saved reads back as the document shown and scram accepts it; refused files and failed saves leave document, files and undo history alone; "
            "analyses and exported reports equal scram's for the saved document and the chosen settings; closing asks before losing changes")
    MIN = {"steps": 20000, "accepted": 2000, "refused_ok": 1000, "unchanged": 600, "saved": 1000, "reports": 500, "undone": 500, "bad_inputs": 300, "failed_saves": 40, "removed": 400, "not_removable": 300, "projects": 50, "autosaves_checked": 40}
    ASSUMPTIONS = ["an event whose type changes becomes a new element (label kept as entered, attributes are not carried over)",
                   "a fault tree that got several top gates by editing is outside what the window promises to reopen; its analyses are not compared",
                   "labels are compared with white space collapsed, as the dialog stores them"]

    # ---- session helpers
    def do(self, **step):
        r = self.s.send(**step)
        self.last = r
        return r

    def bad(self, key, msg):
        self.ctx.fail(key, "%s (steps: %s)" % (msg, " ; ".join(self.s.log[-5:])), stop=True)

    def boxes(self, r, want, key):
        if len(r["boxes"]) != want:
            self.bad(key, "%d message boxes instead of %d: %r" % (len(r["boxes"]), want, r["boxes"]))

    def tables(self):
        r = self.do(op="tables")
        self.watch(r)
        for i, k in ((1, "gate"), (2, "basic"), (3, "house")):
            got = sorted(row[0] for row in r["table%d" % i])
            if got != sorted(self.cur[k]):
                self.bad("table-%s" % k, "the table shows %r, the document has %r" % (got, sorted(self.cur[k])))
        self.ctx.count("tables")

    def watch(self, r):
        """What always holds: window state follows the undo stack."""
        if self.auto and len(self.files) == 1:  # saved at any moment
            self.clean = r["index"] if r["clean"] else None
        clean = self.clean is not None and r["index"] == self.clean
        if r["clean"] != clean:
            self.bad("clean-state", "clean is %s at %d, saved at %s" % (r["clean"], r["index"], self.clean))
        if r["modified"] == r["clean"]:
            self.bad("modified-state", "modified %s, clean %s" % (r["modified"], r["clean"]))
        want = (self.cur["name"] or "Unnamed Model") + "[*]"
        if self.opened and r["title"] != want:
            self.bad("title", "%r instead of %r" % (r["title"], want))

    def pushed(self, r, new, atleast=1):
        """Records the new document, or that nothing happened."""
        i = r["index"]
        if new is None:
            if i != self.idx or r["count"] != self.count:
                self.bad("spurious-change", "%d commands for an action that changes nothing" % (i - self.idx))
        else:
            if i < self.idx + atleast or r["count"] != i:
                self.bad("no-command", "undo index %d after %d" % (i, self.idx))
            self.marks = {k: v for k, v in self.marks.items() if k <= self.idx}
            if self.clean is not None and self.clean > self.idx:
                self.clean = None
            self.idx, self.count, self.cur = i, i, new
            self.marks[i] = copy(new)
            self.report = False
        self.watch(r)

    # ---- actions
    def legal(self, w, t):
        return {"name": c31.legal_name, "value": lambda x: c31.legal_number(x, Fraction(1)), "rate": lambda x: c31.legal_number(x, c31.MAX)}[w](t)

    def expect_ok(self, f, st, old, new):
        """Whether the dialog's content describes a valid event of the document."""
        n = f["name"]
        if not c31.legal_name(n):
            return False
        if n != old and kind_of(st, n):
            return False
        t = f["type"]
        if t in (BASIC, UNDEV) and f["expr"]:
            w = "value" if f["etype"] == 0 else "rate"
            ok = self.legal(w, f[w])
            if not ok:
                return ok
        if t == GATE:
            a = f["args"]
            if n in a or len(set(a)) != len(a) or not all(c31.legal_name(x) for x in a):
                return False
            if old:
                for x in a:
                    if x in st["gate"] and x != old and reaches(st, x, old):
                        return False
            c = CONN[f["conn"]]
            k = len(a)
            if not {"and": k >= 2, "or": k >= 2, "nand": k >= 2, "nor": k >= 2, "xor": k == 2, "not": k == 1, "null": k == 1, "atleast": k > f["min"] and f["min"] >= 2}[c]:
                return False
            if new and (not c31.legal_name(f["tree"]) or f["tree"] in st["tree"]):
                return False
        return True

    def shown_as(self, st, n):
        """The dialog's fields for an element."""
        k = kind_of(st, n)
        e = st[k][n]
        f = {"name": n, "label": flat(e["label"])}
        if k == "house":
            f.update(type=HOUSE, state=int(e["state"]))
        elif k == "basic":
            f.update(type=UNDEV if undeveloped(e) else BASIC, expr=e["expr"] is not None)
            if e["expr"] and e["expr"][0] == "const":
                f.update(etype=0, value=e["expr"][1])
            elif e["expr"] and e["expr"][0] == "exponential" and e["expr"][1][0] == "const":
                f.update(etype=1, rate=e["expr"][1][1])
        else:
            f.update(type=GATE, conn=CONN.index(e["f"][0]), args=sorted(e["f"][2]), tree=e["tree"])
            if e["f"][1]:
                f["min"] = e["f"][1]
        return f

    def check_initial(self, st, n, f):
        for k, v in self.shown_as(st, n).items():
            got = f[k]
            if k in ("value", "rate"):
                try:
                    got = float(got)
                except ValueError:
                    pass
            if k == "args":
                got = sorted(got)
            if k == "label":
                got = flat(got)
            if got != v:
                self.bad("dialog-shows-" + k, "%s of %s is %r in the dialog, %r in the document" % (k, n, got, v))
        self.ctx.count("dialogs_checked")

    def fields(self, rng, st, old):
        """What the user enters."""
        cur = self.shown_as(st, old) if old else {"type": HOUSE, "args": [], "conn": 0, "min": 2}
        out = []
        t = cur["type"]
        evs = list(st["gate"]) + list(st["basic"]) + list(st["house"])
        if rng.random() < (.25 if old else .95):
            t = rng.choice([HOUSE, BASIC, UNDEV, GATE, GATE] if not old else [HOUSE, BASIC, UNDEV, GATE])
            out.append(["type", t])

        def name():
            twins = [x for x in evs if old and x != old and x.casefold() == old.casefold()]
            if twins and rng.random() < .7:
                return rng.choice(twins)
            r = rng.random()
            if r < .1 and evs:
                return rng.choice(evs)
            if r > .9 and evs:  # names that differ only in the case of letters
                x = old if old and rng.random() < .6 else rng.choice(evs)
                return rng.choice([x.upper(), x.lower(), x.swapcase(), x.title()])
            if r < .2:
                return c31.gen_name(rng).replace("\n", "").replace("\0", "")
            if r < .25:
                return rng.choice(["a-", "b--c", "-a", "1x", "", "a b", "a.b"])
            return guimodel.name(rng, set(evs) | set(st["tree"]))
        if rng.random() < (.3 if old else .97):
            out.append(["name", name()])
        if rng.random() < .3:
            out.append(["label", rng.choice(["", "new label", "  two   spaces ", "line\nbreak", "<&>\"' %1", "\u00e9\u2227", "tab\there", "x" * 300] + (["bell\x07!", "nul\x01", "\ufffe", "esc\x1b[0m"] if rng.random() < .3 else []))])
        if t == HOUSE and rng.random() < .7:
            out.append(["state", rng.randrange(2)])
        if t in (BASIC, UNDEV) and rng.random() < .7:
            if rng.random() < .5:
                out.append(["expr", rng.random() < .7])
            if rng.random() < .5:
                out.append(["etype", rng.randrange(2)])
            num = lambda: c31.gen_number(rng) if rng.random() < .25 else rng.choice(["0.1", "0.123456789", "1e-7", "1", "0", "2.5e-5", repr(rng.random()), "5e-324", "3"])
            if rng.random() < .7:
                out.append(["value", num()])
            if rng.random() < .7:
                out.append(["rate", num()])
        if t == GATE:
            want = rng.choice([0, 1, 2, 2, 3, 4, 5]) if not old or rng.random() < .4 else 0
            if old and cur["args"] if "args" in cur else False:
                for a in cur["args"]:
                    if rng.random() < .15:
                        out.append(["unarg", a])
            pool = evs * 3 + [guimodel.name(rng, set(evs)) for _ in range(3)]
            for _ in range(want):
                a = rng.choice(pool)
                r = rng.random()
                if r < .05:
                    a = rng.choice(["a-", "b c", "", "1", "x.y", c31.gen_name(rng)])
                out.append(["arg", a, rng.choice(["enter", "button"])])
                if rng.random() < .1:
                    out.append(["unarg", rng.choice([a, "nothing"])])
            if rng.random() < (.3 if old else .95):
                n = want + (len(cur["args"]) if "args" in cur else 0)
                c = rng.choice({1: ["not", "null"], 2: ["and", "or", "xor", "nand", "nor"]}.get(n, ["and", "or", "atleast", "atleast", "nand", "nor"])) if rng.random() < .85 else rng.choice(CONN)
                out.append(["conn", CONN.index(c)])
                if c == "atleast" and rng.random() < .8:
                    out.append(["min", rng.randint(2, 5)])
            if not old:
                out.append(["tree", rng.choice(list(st["tree"]) + ["x"]) if rng.random() < .07 else rng.choice(["t-", "", "1"]) if rng.random() < .05 else guimodel.name(rng, set(st["tree"]) | set(evs))])
        if rng.random() < .25:
            rng.shuffle(out)
        return out

    def typed(self, st, r, fields, old):
        """The dialog holds what was entered where that is legal."""
        want = {}
        args = list(r["initial"]["args"])
        nm = r["initial"]["name"]
        skipped = list(r["skipped"])
        for f in fields:
            w, v = f[0], f[1]
            if w in skipped:
                continue
            if w in ("name", "value", "rate", "tree"):
                ok = self.legal("name" if w in ("name", "tree") else w, v)
                want[w] = v if ok else None
                if w == "name":
                    nm = v if ok else None
            elif w in ("type", "state", "etype", "conn"):
                want[w] = v
            elif w == "expr":
                want[w] = bool(v)
            elif w == "label":
                want[w] = v
            elif w == "arg":
                if nm is None:
                    args = None
                if args is None:
                    continue
                if not c31.legal_name(v):
                    args = None  # part of it may have been typed
                    continue
                if v not in args and v != nm and not (old and v != old and v in st["gate"] and reaches(st, v, old)):
                    args.append(v)
            elif w == "unarg" and args is not None:
                if v in args:
                    args.remove(v)
                elif args:
                    args.pop()
        if r["skipped"]:
            args = None if any(x in ("arg", "unarg") for x in r["skipped"]) else args
        fin = r["final"]
        for w, v in want.items():
            if v is None or w in skipped:
                continue
            got = fin[w]
            if w == "label":
                got, v = flat(got), flat(v)
            if got != v:
                self.bad("entered-" + w, "entered %r, the dialog holds %r" % (v, got))
        if args is not None and fin["args"] != args:
            self.bad("entered-args", "arguments %r instead of %r" % (fin["args"], args))

    def element(self, rng, old=None, table=None):
        st = self.cur
        fields = [] if old and rng.random() < .2 else self.fields(rng, st, old)
        accept = rng.random() < .93
        step = dict(op="edit", table=table, name=old) if old else dict(op="add")
        r = self.do(fields=fields, accept=accept, grab=rng.random() < .03, **step)
        if old and not r["found"]:
            self.bad("row-missing", old)
        if r.get("closed"):
            self.bad("dialog-closed", "the dialog closed on its own: %r" % fields)
        if r.get("unused_plan"):
            self.bad("no-dialog", repr(step))
        if r.get("stuck"):
            self.bad("dialog-stuck", repr(fields))
        if old:
            self.check_initial(st, old, r["initial"])
        self.typed(st, r, fields, old)
        f = r["final"]
        ok = self.expect_ok(f, st, old, not old)
        if fields or old:
            if ok is not None and r["ok"] != ok:
                self.bad("ok-enabled" if r["ok"] else "ok-disabled", "OK is %s for %r (document: %s)" % (r["ok"], f, brief(st)))
        if not r["accepted"]:
            self.ctx.count("cancelled" if r["ok"] else "refused_ok")
            return self.pushed(r, None)
        self.boxes(r, 0, "box-on-edit")
        self.ctx.count("accepted")
        new = self.apply(st, f, old, r["initial"])
        if diff(st, new) is None:
            self.ctx.count("unchanged")
            if r["index"] != self.idx and not (f["type"] == GATE and f["args"] != r["initial"]["args"]):
                self.bad("spurious-change", "OK without a change pushed %d commands: %r" % (r["index"] - self.idx, f))
            if r["index"] != self.idx:
                return self.pushed(r, new)
            return self.pushed(r, None)
        self.pushed(r, new)

    def apply(self, st, f, old, shown):
        new = copy(st)
        n = f["name"]
        label = flat(f["label"])
        e = {"label": "", "attrs": []}
        tree = None
        if old:
            k = kind_of(st, old)
            e = new[k].pop(old)
            tree = e.get("tree")
            for v in new["gate"].values():
                c, m, a = v["f"]
                if old in a:
                    v["f"] = (c, m, (a - {old}) | {n})
        else:
            k = None
        e["label"] = e["label"] if old and flat(e["label"]) == label else label
        t = f["type"]
        nk = {HOUSE: "house", BASIC: "basic", UNDEV: "basic", GATE: "gate"}[t]
        if k and k != nk:
            e = {"label": label, "attrs": []}
        if nk == "house":
            e["state"] = bool(f["state"])
        elif nk == "basic":
            a = [x for x in e["attrs"] if x[0] != "flavor"]
            if undeveloped(e) != (t == UNDEV):
                e["attrs"] = sorted(a + [("flavor", "undeveloped", "")]) if t == UNDEV else a
            if not f["expr"]:
                e["expr"] = None
            elif f["etype"] == 0:
                if not (e.get("expr") == ("system-mission-time",) and same_rate(f["value"], shown["value"])):
                    e["expr"] = ("const", number(f["value"]))
            else:
                x = e.get("expr")
                rate = number(f["rate"])
                if not (x and x[0] == "exponential" and same_rate(f["rate"], shown["rate"])):
                    e["expr"] = ("exponential", ("const", rate), x[2] if x and x[0] == "exponential" else ("system-mission-time",))
        else:
            c = CONN[f["conn"]]
            e["f"] = (c, f["min"] if c == "atleast" else None, frozenset(f["args"]))
            e["tree"] = tree or f["tree"]
            if not old:
                new["tree"][f["tree"]] = {"label": "", "attrs": []}
                new["roots"][f["tree"]] = n
            elif k == "gate" and new["roots"][tree] == old:
                new["roots"][tree] = n
        if nk != "gate":
            e.pop("tree", None)
        new[nk][n] = e
        if nk == "gate":
            for a in f["args"]:
                if not kind_of(new, a):
                    new["basic"][a] = {"label": "", "attrs": [("flavor", "undeveloped", "")], "expr": None}
        return new

    def remove(self, rng):
        st = self.cur
        k = rng.choice(["gate", "basic", "house"])
        if not st[k]:
            return
        n = rng.choice(list(st[k]))
        free = [x for x in st[k] if not parents(st, x)]
        if free and rng.random() < .6:
            n = rng.choice(free)
        r = self.do(op="remove", table={"gate": 1, "basic": 2, "house": 3}[k], name=n)
        new = None
        blocked = bool(parents(st, n))
        if not blocked and k == "gate":
            own = [g for g, v in st["gate"].items() if v["tree"] == st["gate"][n]["tree"]]
            if n == self.root(st["gate"][n]["tree"]) and len(own) > 1:
                blocked = True
        if blocked:
            self.boxes(r, 1, "removal-refused")
            self.ctx.count("not_removable")
        else:
            self.boxes(r, 0, "removal-box")
            new = copy(st)
            e = new[k].pop(n)
            if k == "gate" and not any(v["tree"] == e["tree"] for v in new["gate"].values()):
                del new["tree"][e["tree"]]
                del new["roots"][e["tree"]]
            self.ctx.count("removed")
        self.pushed(r, new)

    def root(self, tree):
        """The gate the window takes for the top of the tree; several are possible after edits."""
        return self.cur["roots"].get(tree)

    def save(self, rng, force=False):
        ctx = self.ctx
        known = len(self.files) == 1
        st = self.cur
        way = rng.choice(["save", "saveas"])
        step = dict(op=way)
        asks = way == "saveas" or not known
        target = self.files[0] if not asks else ctx.path(rng.choice(["out%d.xml" % self.nout, "\u0444 %d.xml" % self.nout, "model.mef"]))
        if way == "save" and self.last["clean"]:
            return  # the action is disabled
        failing = rng.random() < .15 and not force
        if asks:
            if failing:
                d = rng.choice(["dir", "missing", "cancel"])
                if d == "dir":
                    target = ctx.path("isdir")
                    os.makedirs(target + "/inside", exist_ok=True)
                    failing = False
                elif d == "missing":
                    target = ctx.path("nodir/x.xml")
                else:
                    step["path"] = ""
                    r = self.do(**step)
                    self.boxes(r, 0, "cancelled-save")
                    return self.pushed(r, None)
                if d == "dir":
                    return
            step["path"] = target
        elif failing:
            os.rename(target, target + ".bak")
            os.makedirs(target + "/inside")
        before = self.listing()
        r = self.do(answer=YES, **step)
        if failing and asks:
            # The dialog of the platform refuses names in missing directories or scram reports the failure.
            ctx.count("failed_saves")
            if not r.get("stuck"):
                self.boxes(r, 1, "failed-save")
            if self.listing() != before:
                self.bad("failed-save-files", "%r" % (self.listing() - before))
            return self.pushed(r, None)
        if failing:
            ctx.count("failed_saves")
            self.boxes(r, len(r["boxes"]) or 1 if self.auto else 1, "failed-save")
            left = self.listing()
            if left != before:
                self.bad("failed-save-files", "left behind: %r" % sorted(left - before))
            os.rmdir(target + "/inside")
            os.rmdir(target)
            os.rename(target + ".bak", target)
            return self.pushed(r, None)
        self.boxes(r, int(asks and os.path.relpath(target, ctx.dir) in before), "save-box")
        self.nout += 1
        self.clean = r["index"]
        self.files = [target]
        self.pushed(r, None)
        after = self.listing()
        if after - before - {os.path.relpath(target, ctx.dir)} or before - after:
            self.bad("save-files", "%r" % sorted(before ^ after))
        self.check_saved(target)
        return target

    def listing(self):
        out = set()
        for d, ds, fs in os.walk(self.ctx.dir):
            rel = os.path.relpath(d, self.ctx.dir)
            if rel.split("/")[0] in ("settings", "home", "run"):
                continue
            out |= {os.path.normpath(os.path.join(rel, f)) for f in fs if not re.match(r"(stdout|stderr)\.\d+$|gui\.err$", f)}
        return out

    def check_saved(self, path):
        data = open(path, "rb").read()
        try:
            got = parse(data)
        except (ET.ParseError, ValueError) as e:
            self.bad("saved-unreadable", "%s: %r" % (e, data[:1500]))
        d = diff(self.cur, got)
        if d:
            self.bad("saved-document", d)
        r = self.ctx.scram(["--validate", path])
        if r.code != 0:
            self.bad("saved-refused", "scram refuses the saved document: %s" % r.err.decode(errors="replace")[-600:])
        self.ctx.count("saved")

    def back(self, rng):
        marks = sorted(self.marks)
        i = rng.choice(marks)
        if i == self.idx:
            return
        r = self.do(op="undo" if i < self.idx else "redo", to=i)
        if r["index"] != i or r["count"] != self.count:
            self.bad("undo-index", "%r for %d" % (r, i))
        self.idx, self.cur = i, copy(self.marks[i])
        self.report = False
        self.watch(r)
        self.ctx.count("undone")

    def rename(self, rng):
        st = self.cur
        n = rng.choice(["model-2", "\u0438\u043c\u044f", "M", st["name"] or "x", "", "a-", "1a", "a b", "q" + str(rng.randrange(99))])
        r = self.do(op="rename", name=n, enter=rng.random() < .5, accept=rng.random() < .9)
        if r["initial"] != st["name"]:
            self.bad("rename-shows", "%r instead of %r" % (r["initial"], st["name"]))
        if c31.legal_name(n) and r["final"] != n:
            self.bad("rename-entered", "%r instead of %r" % (r["final"], n))
        if not r["accepted"]:
            if c31.legal_name(n) and not r["ok"]:
                self.bad("rename-ok", "OK is disabled for " + n)
            return self.pushed(r, None)
        f = r["final"]
        if f and not c31.legal_name(f):
            self.bad("rename-illegal", "the window accepts %r" % f)
        new = dict(copy(st), name=f)
        self.ctx.count("renamed")
        self.pushed(r, new if f != st["name"] else None)

    def settings(self, rng):
        f = []
        for n in rng.sample(["bdd", "zbdd", "mocus", "rareEvent", "mcub", "primeImplicants", "probability", "importance", "approximationsBox"], rng.randint(0, 4)):
            f.append([n, True if n in ("bdd", "zbdd", "mocus", "rareEvent", "mcub") else rng.random() < .6])
        if rng.random() < .4:
            f.append(["missionTime", rng.choice([1, 10, 100.5, 8760, 50000])])
        if rng.random() < .3:
            f.append(["productOrder", rng.choice([1, 2, 5, 20, 100])])
        r = self.do(op="settings", fields=f, accept=rng.random() < .9)
        self.check_settings(r["initial"])
        o = r["final"]
        algo = [a for a in ("bdd", "zbdd", "mocus") if o[a]]
        if len(algo) != 1 or algo[0] != "bdd" and not o["approximationsBox"] or o["primeImplicants"] and (algo[0] != "bdd" or o["approximationsBox"]) or o["importance"] and not o["probability"]:
            if r["ok"]:
                self.bad("settings-inconsistent", repr(o))
        if r["accepted"]:
            for k in ("missionTime", "productOrder"):
                if o[k] != r["initial"][k]:
                    self.real[k] = o[k]
            if not o["probability"]:
                self.real["prob-only"] = []
            self.opts = o
        else:
            self.opts = r["initial"]
        self.boxes(r, 0, "settings-box")
        self.pushed(r, None)
        self.ctx.count("settings")

    def check_settings(self, o):
        if self.opts is None:
            return
        skip = () if self.opts["approximationsBox"] else ("rareEvent", "mcub")
        for k in self.opts:
            if k not in skip and o[k] != self.opts[k]:
                self.bad("settings-shown", "%s is %r instead of %r" % (k, o[k], self.opts[k]))

    def run(self, rng):
        st = self.cur
        if self.opts is None:
            r = self.do(op="settings", fields=[], accept=False)
            self.opts = r["initial"]
        o = self.opts
        if len(st["basic"]) > 40 or any(e["expr"] == ("system-mission-time",) for e in st["basic"].values()):
            return
        r = self.do(op="run", tables=rng.random() < .5)
        missing = [b for b, e in st["basic"].items() if e["expr"] is None]
        if o["probability"] and missing:
            self.boxes(r, 1, "missing-expressions")
            self.ctx.count("runs_refused")
            if bool(r["report"]) != (self.report and bool(st["tree"])):
                self.bad("report-after-refusal", repr(r["report"]))
            return self.pushed(r, None)
        self.boxes(r, 0, "run-box")
        self.report = True
        self.pushed(r, None)
        self.nout += 1
        if rng.random() < .1:
            e = self.do(op="export", path=self.ctx.path("nodir/rep.xml"))
            if not e.get("stuck"):
                self.boxes(e, 1, "failed-export")
        path = self.ctx.path("rep%d.xml" % self.nout)
        e = self.do(op="export", path=path)
        self.boxes(e, 0, "export-box")
        if not e["enabled"] or not os.path.exists(path):
            self.bad("export", repr(e))
        got = report.Report(open(path, "rb").read())
        if len(r["report"]) != len(got.sops):
            self.bad("report-rows", "%d rows, %d analysed targets" % (len(r["report"]), len(got.sops)))
        amb = {t: tops(st, t) for t in st["tree"]}
        if any(len(v) != 1 or v[0] != self.root(t) for t, v in amb.items()):
            self.ctx.count("several_tops")
            return
        doc = self.ctx.write("copy%d.xml" % self.nout, write(st))
        args = ["--bdd" if o["bdd"] else "--zbdd" if o["zbdd"] else "--mocus"]
        if o["approximationsBox"]:
            args.append("--rare-event" if o["rareEvent"] else "--mcub")
        if o["primeImplicants"]:
            args.append("--prime-implicants")
        args += ["--probability"] * o["probability"] + ["--importance"] * o["importance"] + ["--limit-order", str(int(self.real["productOrder"])), "--mission-time", "%r" % self.real["missionTime"]]
        args += self.real["extra"] + self.real["prob-only"]
        out = self.ctx.path("cli%d.xml" % self.nout)
        c = self.ctx.scram([doc] + args + ["-o", out], timeout=60)
        if c.code != 0:
            self.bad("cli-refuses", "%s: %s" % (args, c.err.decode(errors="replace")[-500:]))
        want = report.Report(open(out, "rb").read())
        d = report.diff(report.flatten(want), report.flatten(got), ignore=noise)
        if d:
            self.bad("report-differs", "%s: %s" % (args, d))
        self.ctx.count("reports")

    def open_bad(self, rng):
        ctx = self.ctx
        kinds = {
            "missing": None, "ill": "<opsa-mef><define-fault-tree", "schema": "<opsa-mef><foo/></opsa-mef>", "empty": "",
            "cycle": '<opsa-mef><define-fault-tree name="zz"><define-gate name="z1"><not><gate name="z2"/></not></define-gate><define-gate name="z2"><not><gate name="z1"/></not></define-gate></define-fault-tree></opsa-mef>',
            "undefined": '<opsa-mef><define-fault-tree name="zz"><define-gate name="z1"><not><gate name="nowhere"/></not></define-gate></define-fault-tree></opsa-mef>',
            "twice": '<opsa-mef><model-data><define-house-event name="z1"/><define-house-event name="z1"/></model-data></opsa-mef>',
            "dupargs": '<opsa-mef><define-fault-tree name="zz"><define-gate name="z1"><and><event name="z3"/><event name="z3"/></and></define-gate></define-fault-tree><model-data><define-basic-event name="z3"/></model-data></opsa-mef>',
            "badp": '<opsa-mef><define-fault-tree name="zz"><define-gate name="z1"><not><basic-event name="z3"/></not></define-gate></define-fault-tree><model-data><define-basic-event name="z3"><float value="1.5"/></define-basic-event></model-data></opsa-mef>',
            "notops": '<opsa-mef><define-fault-tree name="zz"></define-fault-tree></opsa-mef>',
            "twotops": '<opsa-mef><define-fault-tree name="zz"><define-gate name="z1"><not><basic-event name="z3"/></not></define-gate><define-gate name="z2"><not><basic-event name="z3"/></not></define-gate></define-fault-tree><model-data><define-basic-event name="z3"/></model-data></opsa-mef>',
            "ccf": '<opsa-mef><define-CCF-group name="c" model="beta-factor"><members><basic-event name="z1"/><basic-event name="z2"/></members></define-CCF-group></opsa-mef>',
            "overflow": '<opsa-mef><define-fault-tree name="zz"><define-gate name="z1"><not><basic-event name="z3"/></not></define-gate></define-fault-tree><model-data><define-basic-event name="z3"><float value="1e999"/></define-basic-event></model-data></opsa-mef>',
            "dir": None, "binary": "\0\1\2\3" * 100, "again": None,
        }
        k = rng.choice(list(kinds))
        p = ctx.path("bad-%s.xml" % k)
        if k == "dir":
            os.makedirs(p, exist_ok=True)
        elif k == "again":
            if not self.cur["gate"] or not self.files:
                return
            p = self.files[0]
        elif kinds[k] is not None:
            ctx.write("bad-%s.xml" % k, kinds[k])
        mod = not self.last["clean"]
        step = dict(op="open", files=[p])
        if rng.random() < .3:
            proj = ctx.write("p-%s.xml" % k, '<?xml version="1.0"?><scram><model><file>%s</file></model><options>%s</options></scram>' % (os.path.basename(p), rng.choice(["", '<algorithm name="zbdd"/>'])))
            if rng.random() < .4:
                proj = ctx.write("q.xml", rng.choice(['<?xml version="1.0"?><scram><model><file>x.xml</file></model><options><bad/></options></scram>', "<scram", "", '<?xml version="1.0"?><scram version="0.0.1"><options/></scram>',
                                                    '<?xml version="1.0"?><scram><model></model><options><algorithm name="zbdd"/><prime-implicants/></options></scram>',
                                                    '<?xml version="1.0"?><scram><options><limits><mission-time>-1</mission-time></limits></options></scram>']))
            step = dict(op="project", file=proj, files=[])
        if mod and len(self.files) != 1:
            return  # asks for a name to save to first
        before = {f: core.rd(f) for f in self.files}
        r = self.do(**step)
        if r["opened"]:
            self.bad("bad-input-opened", "%s opened" % k)
        if mod and r["clean"]:  # saved before opening, without a question: the file holds the document
            self.clean = r["index"]
            self.check_saved(self.files[0])
        elif not self.auto and {f: core.rd(f) for f in self.files} != before:
            self.bad("input-touched", k)
        if len(r["boxes"]) != 1:
            self.bad("bad-input-box", "%s: %r" % (k, r["boxes"]))
        ctx.count("bad_inputs")
        self.pushed(r, None)

    def open_more(self, rng):
        """A second file joins the document."""
        d = guimodel.gen(rng, trees=rng.choice([0, 1, 1]), basics=rng.randint(1, 3), houses=rng.randint(0, 1), gates=rng.randint(1, 2))
        p = self.ctx.write("more%d.xml" % self.nout, guimodel.xml(d))
        self.nout += 1
        add = parse(open(p, "rb").read())
        clash = any(kind_of(self.cur, n) for k in ("basic", "house", "gate") for n in add[k]) or any(t in self.cur["tree"] for t in add["tree"])
        names = {n.lower() for k in ("basic", "house", "gate", "tree") for n in self.cur[k]}
        if not self.last["clean"] and len(self.files) != 1:
            return
        if not clash and any(n.lower() in names for k in ("basic", "house", "gate", "tree") for n in add[k]):
            return
        if self.files and any(len(tops(self.cur, t)) != 1 for t in self.cur["tree"]):
            return
        mod = not self.last["clean"]
        r = self.do(op="open", files=[p])
        if mod and r["clean"] and self.files:
            self.clean = r["index"]
            self.check_saved(self.files[0])
        if self.opts and self.opts["probability"] and any(e["expr"] is None for x in (self.cur, add) for e in x["basic"].values()):
            clash = True  # The analysis asked for does without such a document.
        if clash:
            if r["opened"]:
                self.bad("clash-opened", p)
            self.boxes(r, 1, "clash-box")
            return self.pushed(r, None)
        if not r["opened"]:
            self.bad("not-opened", repr(r["boxes"]))
        if self.files:
            self.cur = merge(self.cur, add)
        else:
            self.cur = add
        self.files = self.files + [p]
        self.fresh(r)
        self.ctx.count("joined")

    def fresh(self, r):
        """A newly loaded document."""
        self.idx = self.count = 0
        self.clean = 0
        self.report = False
        self.opened = True
        self.cur = dict(self.cur, roots={t: tops(self.cur, t)[0] for t in self.cur["tree"]})
        self.marks = {0: copy(self.cur)}
        if r["index"] or r["count"]:
            self.bad("history-survives", repr(r))
        self.watch(r)

    def close(self, rng):
        st = self.cur
        mod = not self.last["clean"]
        op = rng.choice(["close", "new"])
        if op == "close" or rng.random() < .3:
            r = self.do(op=op, answer=CANCEL)
            self.boxes(r, int(mod), "close-question")
            if op == "close" and r["visible"] == (not mod):
                self.bad("close-cancel", repr(r))
            if op == "close" or mod:
                return self.pushed(r, None)
        else:
            if mod and len(self.files) == 1 and rng.random() < .5:
                r = self.do(op=op, answer=SAVE)
                self.check_saved(self.files[0])
            else:
                before = {f: core.rd(f) for f in self.files}
                r = self.do(op=op, answer=DISCARD)
                if not self.auto and {f: core.rd(f) for f in self.files} != before:
                    self.bad("discard-saves", repr(self.files))
            self.boxes(r, int(mod), "new-question")
        self.cur = {"name": "", "head": {"label": "", "attrs": []}, "basic": {}, "house": {}, "gate": {}, "tree": {}}
        self.files = []
        self.fresh(r)
        self.ctx.count("new_models")

    def case(self, ctx, rng, idx):
        self.ctx = ctx
        self.auto = rng.random() < .12
        for ext in ("ini", "conf"):
            ctx.write("settings/scramverif/scramverif." + ext, "[General]\nautoSave=%d\n" % (10 if self.auto else 0))
        self.s = Session(self, ctx)
        try:
            self.session(ctx, rng)
            self.s.end()
        finally:
            self.s.kill()
        ctx.sig(*self.s.log)

    def session(self, ctx, rng):
        self.real = {"missionTime": 8760, "productOrder": 20, "extra": [], "prob-only": []}
        self.nout, self.files, self.opts, self.opened = 0, [], None, False
        self.cur = {"name": "", "head": {"label": "", "attrs": []}, "basic": {}, "house": {}, "gate": {}, "tree": {}}
        self.clean, self.idx, self.count, self.marks, self.report = 0, 0, 0, {}, False
        if rng.random() < .1:
            r = self.do(op="new")
        else:
            d = guimodel.gen(rng, defs_in_tree=rng.choice([0, 0, 0, .4]), mission_exprs=.25, no_expr=rng.choice([0, 0, .15]))
            p = ctx.write("start.xml", guimodel.xml(d))
            ctx.sample(guimodel.xml(d))
            self.cur = parse(open(p, "rb").read())
            self.files = [p]
            self.cur["roots"] = {}
            if rng.random() < .3 and all(e["expr"] and e["expr"] != ("system-mission-time",) for e in self.cur["basic"].values()):
                r = self.project(ctx, rng, p)
            else:
                r = self.do(op="open", files=[p])
            if not r["opened"]:
                self.bad("not-opened", repr(r["boxes"]))
            self.boxes(r, 0, "open-box")
        self.fresh(r)
        n = rng.choice([15, 30, 60])
        if self.tier != "quick":
            n *= 2
        acts = [(self.act_edit, 30), (self.act_add, 18), (self.remove, 12), (self.back, 12), (self.save, 9), (self.rename, 4), (self.settings, 5), (self.run, 8), (self.open_bad, 5), (self.open_more, 3), (self.close, 2), (self.act_tables, 6), (self.act_wait, 10 if self.auto else 0)]
        for _ in range(n):
            f = rng.choices([a for a, _ in acts], [w for _, w in acts])[0]
            f(rng)
            h = self.last
            if "report" not in h and rng.random() < .1:
                r = self.do(op="hasreport")
                if r["report"] != self.report:
                    self.bad("stale-report" if r["report"] else "lost-report", "a report is shown: %s" % r["report"])
        self.tables()
        self.save(rng, True)

    def project(self, ctx, rng, p):
        """A project's settings are the window's, those without a control included."""
        o, real = [], self.real
        algo = rng.choice(["bdd", "zbdd", "mocus"])
        o.append('<algorithm name="%s"/>' % algo)
        want = {"bdd": algo == "bdd", "zbdd": algo == "zbdd", "mocus": algo == "mocus", "primeImplicants": False}
        ap = rng.choice([None, "rare-event", "mcub"])
        if not ap and algo == "bdd" and rng.random() < .5:
            o.append("<prime-implicants/>")
            want["primeImplicants"] = True
        prob, imp, unc = (rng.random() < .8, rng.random() < .4, rng.random() < .4)
        sil = rng.random() < .3
        o.append('<analysis probability="%s" importance="%s" uncertainty="%s"/>' % tuple("true" if x else "false" for x in (prob, imp, unc)))
        want.update(approximationsBox=bool(ap) or algo != "bdd", probability=prob or imp or unc, importance=imp)
        want["rareEvent"], want["mcub"] = ap != "mcub", ap == "mcub"
        if ap:
            o.append('<approximation name="%s"/>' % ap)
        lim = []
        if rng.random() < .5:
            real["productOrder"] = rng.choice([1, 2, 30, 150])
            lim.append("<product-order>%d</product-order>" % real["productOrder"])
        if rng.random() < .5:
            real["missionTime"] = rng.choice([.5, 24.5, 100, 1e4])
            lim.append("<mission-time>%r</mission-time>" % real["missionTime"])
        if sil:
            lim.append("<time-step>%r</time-step>" % (real["missionTime"] / 4))
            real["extra"] += ["--time-step", "%r" % (real["missionTime"] / 4)]
        if rng.random() < .5:
            c = rng.choice(["1e-3", "0", "0.05"])
            lim.append("<cut-off>%s</cut-off>" % c)
            real["extra"] += ["--cut-off", c]
        n, seed = rng.choice([7, 100]), rng.choice([3, 97])
        lim += ["<number-of-trials>%d</number-of-trials><seed>%d</seed>" % (n, seed)]
        real["extra"] += ["--num-trials", str(n), "--seed", str(seed)]
        if unc:
            real["prob-only"] += ["--uncertainty"]
        o.append("<limits>%s</limits>" % "".join(lim))
        f = ctx.write("project.xml", '<?xml version="1.0"?><scram><model><file>%s</file></model><options>%s</options></scram>' % (os.path.basename(p), "".join(o)))
        want["missionTime"], want["productOrder"] = round(max(1, real["missionTime"]), 1), min(99, real["productOrder"])
        self.opts = want
        ctx.count("projects")
        return self.do(op="project", file=f, files=[])

    def act_wait(self, rng):
        if self.auto:
            r = self.do(op="wait", ms=60)
            if len(self.files) == 1 and self.opened:
                if not r["clean"]:
                    self.bad("not-autosaved", "index %d" % r["index"])
                self.watch(r)
                self.check_saved(self.files[0])
                self.ctx.count("autosaves_checked")

    def act_tables(self, rng):
        self.tables()

    def act_add(self, rng):
        self.element(rng)

    def act_edit(self, rng):
        k = rng.choice(["gate", "gate", "basic", "basic", "house"])
        if self.cur[k]:
            n = rng.choice(sorted(self.cur[k]))
            self.element(rng, n, {"gate": 1, "basic": 2, "house": 3}[k])


def noise(key, what, a, b):
    """A quotient by nothing but rounding errors, the deviation of a constant."""
    if "standard-deviation" in str(what):
        return max(abs(float(a)), abs(float(b))) < 1e-12
    return what[-1] == "RRW" and max(abs(float(a)), abs(float(b))) > 1e9


def brief(st):
    return {k: sorted(st[k]) for k in ("gate", "basic", "house", "tree")}


def write(st):
    """The document as scram input, written independently of the serializer."""
    from xml.sax.saxutils import quoteattr as q
    o = ['<?xml version="1.0"?><opsa-mef%s>' % (" name=%s" % q(st["name"]) if st["name"] else "")]

    def ex(x):
        if x[0] == "const":
            return "<float value=\"%r\"/>" % x[1]
        if x[0] == "exponential":
            return "<exponential>%s%s</exponential>" % (ex(x[1]), ex(x[2]))
        return "<%s/>" % x[0]
    for t in st["tree"]:
        o.append("<define-fault-tree name=%s>" % q(t))
        for g, v in st["gate"].items():
            if v["tree"] == t:
                c, m, a = v["f"]
                body = "".join("<event name=%s/>" % q(x) for x in sorted(a))
                o.append("<define-gate name=%s>%s</define-gate>" % (q(g), body if c == "null" else "<%s%s>%s</%s>" % (c, ' min="%d"' % m if m else "", body, c)))
        o.append("</define-fault-tree>")
    o.append("<model-data>")
    for b, e in st["basic"].items():
        o.append("<define-basic-event name=%s>%s</define-basic-event>" % (q(b), ex(e["expr"]) if e["expr"] else ""))
    for h, e in st["house"].items():
        o.append("<define-house-event name=%s><constant value=\"%s\"/></define-house-event>" % (q(h), "true" if e["state"] else "false"))
    return "".join(o) + "</model-data></opsa-mef>"
