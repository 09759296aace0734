"""Sessions of the real GUI program: recent files, preferences, languages, searches (harness/gui_session.cc, gui_window.cc)."""
import json, os, re, subprocess
import xml.etree.ElementTree as ET
import build, core, gui_common
import importlib.util

_s = importlib.util.spec_from_file_location("c25", os.path.join(os.path.dirname(os.path.abspath(__file__)), "c25.py"))
c25 = importlib.util.module_from_spec(_s)
_s.loader.exec_module(c25)
SAVE, DISCARD, CANCEL = c25.SAVE, c25.DISCARD, c25.CANCEL
PLACES = 5
NATIVE = [("Deutsch", "de_DE"), ("Espa\u00f1ol", "es_ES"), ("Indonesia", "id_ID"), ("Bahasa", "id_ID"), ("Italiano", "it_IT"), ("Nederlands", "nl_NL"), ("Polski", "pl_PL"), ("\u0420\u0443\u0441", "ru_RU"),
          ("T\u00fcrk", "tr_TR"), ("\u7b80\u4f53", "zh_CN"), ("\u4e2d\u6587", "zh_CN"), ("English", "en")]
TABLE = {1: "gate", 2: "basic", 3: "house"}


def locale_of(native):
    return next((l for p, l in NATIVE if native.startswith(p)), None)


class Program(c25.Session):
    def __init__(self, check, ctx, args, lang):
        self.ctx, self.log, self.tail = ctx, [], []
        self.err = open(ctx.path("gui.err"), "w+b")
        env = gui_common.environment(ctx, {"LANG": lang, "LC_ALL": lang})
        env.pop("QT_FATAL_CRITICALS", None)  # a missing translation of Qt itself is no failure
        self.p = subprocess.Popen([check.env["gui"], "session", "/dev/stdin"] + args, cwd=ctx.dir, env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err, preexec_fn=core._stack)
        ctx.cmds.append(["session"] + args)
        ctx.count("executions")
        ctx.count("sessions")

    def first(self):
        while True:
            l = self.p.stdout.readline().decode(errors="replace")
            if not l:
                self.finish_bad()
            if l.startswith("W "):
                return json.loads(l[2:])
            self.tail.append(l)


class Ui:
    """Texts of the user interface, and their translations."""
    def __init__(self):
        self.sources, self.ts = {}, {}
        root = ET.parse(os.path.join(build.REPO, "gui", "mainwindow.ui")).getroot()
        for tag, prop in (("action", "text"), ("widget", "title")):
            for el in root.iter(tag):
                if tag == "widget" and el.get("class") != "QMenu":
                    continue
                for p in el.findall("property"):
                    if p.get("name") == prop and p.find("string") is not None and p.find("string").get("notr") != "true":
                        self.sources[el.get("name")] = p.findtext("string") or ""

    def translate(self, lang, context, source):
        """None: not known (several translations)."""
        if lang == "en":
            return source
        if lang not in self.ts:
            t = {}
            p = os.path.join(build.REPO, "gui", "translations", "scramgui_%s.ts" % lang)
            for c in ET.parse(p).getroot().findall("context"):
                for m in c.findall("message"):
                    tr = m.find("translation")
                    if tr is None or tr.get("type") in ("vanished", "obsolete"):
                        continue
                    t.setdefault((c.findtext("name"), m.findtext("source")), set()).add(tr.text or m.findtext("source"))
            self.ts[lang] = t
        s = self.ts[lang].get((context, source), {source})
        return next(iter(s)) if len(s) == 1 else None


class Check(gui_common.GuiCheck):
    ID = "C33"
    QUICK, THOROUGH = 240, 4000
    RULE = ("several sessions of the real program (its main function, command line and event loop) over the same user settings and files: the recent-files menu and start page list the last files opened, each once, newest first, at most five, "
            "open them, survive and can be cleared; preferences shown are those chosen, are in force (auto save at once, undo limit with an empty history, language in the next session) and survive; "
            "auto save writes a modified model to its only file and touches nothing else; searches show exactly the matching rows of their table")
    MIN = {"sessions": 250, "steps": 4000, "opened": 250, "refused": 60, "recent_checked": 1200, "reopened": 100, "cleared": 30, "preferences": 250, "limits_hit": 30, "autosaves": 60, "autosaves_idle": 60, "searches": 400, "texts_checked": 2000,
           "languages": 60, "command_lines": 60}
    ASSUMPTIONS = ["the undo limit takes effect at the next time the undo history is empty (Qt refuses it otherwise)", "searches are tried with patterns common to QRegExp and Python"]

    def bad(self, key, msg):
        self.ctx.fail(key, "%s (steps: %s)" % (msg, " ; ".join(self.s.log[-6:])), stop=True)

    def do(self, **step):
        r = self.s.send(**step)
        return self.saw(r)

    def saw(self, r):
        self.last = r
        for b in r["boxes"]:
            if "Assertion" in b["title"] or "Internal" in b["title"]:
                self.bad("internal-error", repr(b))
        if r["op"] == "preferences":
            return r
        self.in_force(r)
        return r

    def in_force(self, r):
        if r["undoLimit"] != self.limit:
            self.bad("undo-limit", "%d in force instead of %d" % (r["undoLimit"], self.limit))
        if r["autoSave"] != self.pref["auto"] * 60000:
            self.bad("auto-save-interval", "%d ms in force instead of %d min" % (r["autoSave"], self.pref["auto"]))

    # ---- files
    def make(self, k):
        """Document k: own names."""
        rng = self.rng
        n = lambda: rng.choice(["pump", "valve", "Tank", "fan-2", "x", "y_1"]) + "%d%s" % (rng.randrange(30), "f%d" % k)
        names = set()
        while len(names) < rng.randint(4, 12):
            names.add(n())
        names = sorted(names)
        rng.shuffle(names)
        ng, nh = rng.randint(1, 2), rng.randint(0, 1)
        gates, house, basic = names[:ng], names[ng:ng + nh], names[ng + nh:]
        args = {}
        for i, g in enumerate(gates):
            a = gates[i + 1:i + 2] + rng.sample(basic + house, rng.randint(1, min(3, len(basic + house))))
            args[g] = a if len(a) > 1 else (a + [x for x in basic + house if x not in a])[:2]
        used = set().union(*args.values())
        x = "<opsa-mef><define-fault-tree name=\"tree%d\">" % k
        for g in gates:
            x += '<define-gate name="%s"><or>%s</or></define-gate>' % (g, "".join('<event name="%s"/>' % a for a in args[g]))
        x += "</define-fault-tree><model-data>"
        for b in basic:
            x += '<define-basic-event name="%s"><float value="0.%d"/></define-basic-event>' % (b, rng.randint(1, 9))
        for h in house:
            x += '<define-house-event name="%s"><constant value="true"/></define-house-event>' % h
        x += "</model-data></opsa-mef>"
        p = self.ctx.path("%s%d.xml" % (rng.choice(["model", "a b", "M&M ", "\u0444" if self.utf8 else "m"]), k))
        with open(p, "w") as f:
            f.write(x)
        self.docs[p] = {"gate": set(gates), "basic": set(basic), "house": set(house), "args": args}
        return p

    def listing(self):
        out = {}
        for d, ds, fs in os.walk(self.ctx.dir):
            if os.path.relpath(d, self.ctx.dir).split("/")[0] in ("settings", "home", "run"):
                continue
            for f in fs:
                if f != "gui.err":
                    out[os.path.join(d, f)] = open(os.path.join(d, f), "rb").read()
        return out

    def content(self, p):
        """The document in a file of ours, or None."""
        try:
            d = c25.parse(open(p, "rb").read())
        except (OSError, ET.ParseError, ValueError):
            return None
        return {"gate": set(d["gate"]), "basic": set(d["basic"]), "house": set(d["house"]), "args": {g: sorted(v["f"][2]) for g, v in d["gate"].items()}, "tree": set(d["tree"])}

    def try_load(self, new):
        """What the window should do with these files added: the document, or None if it must refuse them."""
        doc = empty()
        if len(set(self.files + new)) < len(self.files + new):
            return None
        for p in self.files + new:
            d = self.content(p) if p not in self.invalid else None
            if d is None:
                return None
            for k in ("gate", "basic", "house", "tree"):
                if any(x in doc[k] for x in d[k]) or k != "tree" and any(x in doc[j] for x in d[k] for j in ("gate", "basic", "house")):
                    return None
                doc[k] |= d[k]
            doc["args"].update(d["args"])
        return doc

    # ---- the document and its history
    def reset(self, doc):
        self.doc = doc
        self.snaps, self.idx, self.clean = [doc], 0, 0
        self.tabs = []
        self.limit = self.pref["undo"]

    def push(self, doc):
        if self.clean is not None and self.clean > self.idx:
            self.clean = None
        self.snaps = self.snaps[:self.idx + 1] + [doc]
        self.idx += 1
        self.doc = doc
        while self.limit and len(self.snaps) - 1 > self.limit:
            self.snaps.pop(0)
            self.idx -= 1
            self.clean = None if not self.clean else self.clean - 1
            self.ctx.count("limits_hit")

    def history(self, r):
        want = (self.idx, len(self.snaps) - 1, self.clean == self.idx)
        got = (r["index"], r["count"], r["clean"])
        if got != want:
            self.bad("history", "index, commands and clean %r instead of %r (limit %d)" % (got, want, self.limit))
        if r["modified"] == r["clean"]:
            self.bad("modified", "%r" % r["modified"])

    @property
    def modified(self):
        return self.clean != self.idx

    # ---- recent files
    def check_recent(self):
        r = self.do(op="recent")
        if r["recent"] != self.recent:
            self.bad("recent-files", "%r instead of %r" % (r["recent"], self.recent))
        if r["menu"] != bool(self.recent):
            self.bad("recent-menu", "enabled is %s with %d files" % (r["menu"], len(self.recent)))
        self.ctx.count("recent_checked")
        return r

    def opened(self, files):
        self.recent = (files + [x for x in self.recent if x not in files])[:PLACES]

    def settle(self):
        """Leaves no unsaved changes behind."""
        if self.modified:
            self.limit = self.pref["undo"]
            r = self.do(op="new", answer=DISCARD)
            if len(r["boxes"]) != 1:
                self.bad("new-asks", "%r" % r["boxes"])
            self.files = []
            self.reset(empty())
            self.loaded = True
            self.history(r)

    def load(self, files, r, how):
        doc = self.try_load(files)
        if doc is None:
            if len(r["boxes"]) != 1:
                self.bad("refusal-unreported", "%d messages for %r (%s)" % (len(r["boxes"]), files, how))
            self.history(r)
            self.ctx.count("refused")
            return False
        if r["boxes"]:
            self.bad("valid-refused", "%r: %r" % (files, r["boxes"]))
        self.files = self.files + files
        self.loaded = True
        self.reset(doc)
        self.in_force(r)
        self.history(r)
        self.ctx.count("opened")
        return True

    def wait_reset(self, files):
        """The undo limit comes into force when the files are in."""
        if self.try_load(files) is not None:
            self.limit = self.pref["undo"]

    def step_open(self):
        rng = self.rng
        self.settle()
        if self.loaded and rng.random() < .6:
            self.step_new()
        pool = list(self.docs) + [p for p in self.invalid if rng.random() < .4]
        pool = [p for p in pool if os.path.exists(p)]  # the file dialog offers no others
        files = rng.sample(pool, min(len(pool), rng.choice([1, 1, 1, 2, 3, 7])))
        self.wait_reset(files)
        r = self.do(op="openfiles", files=files)
        if self.load(files, r, "open"):
            self.opened(files)

    def step_new(self):
        if self.modified:
            return self.settle()
        self.limit = self.pref["undo"]
        r = self.do(op="new")
        self.files, self.loaded = [], True
        self.reset(empty())
        self.history(r)

    def step_recent(self):
        rng = self.rng
        if not self.recent:
            return
        self.settle()
        start = False
        if self.loaded and rng.random() < .7:
            self.step_new()
        n = rng.randrange(len(self.recent))
        r = self.check_recent()
        if r["startpage"]:
            names = [os.path.basename(x) for x in self.at_start]
            if [x[1] for x in r["start"]] != self.at_start or [x[0].replace("&", "") for x in r["start"]] != [x.replace("&", "") for x in names]:
                self.bad("start-page", "%r instead of %r" % (r["start"], self.at_start))
            start = self.at_start == self.recent and rng.random() < .6
        p = self.recent[n]
        if rng.random() < .08 and p in self.docs:
            os.remove(p)
            del self.docs[p]
            self.invalid.append(p)
        self.wait_reset([p])
        r = self.do(op="openrecent", n=n, start=start)
        if self.load([p], r, "recent"):
            self.opened([p])
            self.ctx.count("reopened")

    def step_clear(self):
        if not self.recent and self.rng.random() < .8:
            return
        r = self.do(op="clearrecent")
        self.recent = []
        self.ctx.count("cleared")

    # ---- preferences
    def step_preferences(self):
        rng = self.rng
        fields = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            w = rng.choice(["checkUndoLimit", "checkUndoLimit", "undoLimitBox", "undoLimitBox", "checkAutoSave", "autoSaveBox", "language"])
            if w == "language":
                if not self.natives:
                    continue
                fields.append([w, rng.choice(self.natives)])
            else:
                fields.append([w, rng.random() < .7 if w.startswith("check") else rng.choice([1, 2, 3, 5, 17, 60, 99])])
        r = self.do(op="preferences", fields=fields)
        ini, fin = r["initial"], r["final"]
        if ini["undo"] != bool(self.pref["undo"]) or ini["undo"] and ini["undoLimit"] != self.pref["undo"]:
            self.bad("shows-undo-limit", "%r, chosen %r" % (ini, self.pref))
        if ini["auto"] != bool(self.pref["auto"]) or ini["auto"] and ini["autoMinutes"] != self.pref["auto"]:
            self.bad("shows-auto-save", "%r, chosen %r" % (ini, self.pref))
        if self.pref["lang"] and ini["language"] != self.pref["lang"]:
            self.bad("shows-language", "%r, chosen %r" % (ini["language"], self.pref["lang"]))
        installed = sorted(f for f in os.listdir(os.path.join(os.path.dirname(os.path.dirname(self.env["gui"])), "share", "scram", "translations")) if f.endswith(".qm"))
        if len(set(ini["languages"])) != len(installed) + 1:
            self.bad("languages", "%r for %r" % (ini["languages"], installed))
        self.natives = ini["languages"]
        lang, asked = ini["language"], 0
        st = {k: ini[k] for k in ("undo", "undoLimit", "auto", "autoMinutes")}
        for w, v in fields:
            if w == "language":
                asked += v != lang
                if v != lang:
                    lang = self.pref["lang"] = v
            elif w == "checkUndoLimit":
                st["undo"] = v
            elif w == "checkAutoSave":
                st["auto"] = v
            elif w == "undoLimitBox" and st["undo"]:
                st["undoLimit"] = v
            elif w == "autoSaveBox" and st["auto"]:
                st["autoMinutes"] = min(v, 60)
        for k, v in st.items():
            if fin[k] != v:
                self.bad("preferences-entered", "%s is %r instead of %r after %r" % (k, fin[k], v, fields))
        if (fin["undoEnabled"], fin["autoEnabled"]) != (st["undo"], st["auto"]):
            self.bad("preferences-enabled", repr(fin))
        if len(r["boxes"]) != asked:
            self.bad("restart-notice", "%d notices for %d changes of the language" % (len(r["boxes"]), asked))
        self.pref["undo"] = st["undoLimit"] if st["undo"] else 0
        self.pref["auto"] = st["autoMinutes"] if st["auto"] else 0
        if len(self.snaps) == 1:
            self.limit = self.pref["undo"]
        self.ctx.count("preferences")
        self.in_force(r)

    # ---- edits
    def step_edit(self):
        rng = self.rng
        if not self.loaded:
            return
        for _ in range(rng.choice([1, 1, 2, 4, 8])):
            q = rng.random()
            if q < .25 and self.idx:
                self.idx -= 1
                self.doc = self.snaps[self.idx]
                self.history(self.do(op="undo"))
            elif q < .35 and self.idx < len(self.snaps) - 1:
                self.idx += 1
                self.doc = self.snaps[self.idx]
                self.history(self.do(op="redo"))
            else:
                self.n += 1
                n = rng.choice(["pump", "new", "Z-"]) + "q%d" % self.n
                r = self.do(op="add", fields=[["type", c25.BASIC], ["name", n], ["expr", True], ["value", "0.25"]])
                if not r.get("accepted"):
                    self.bad("not-accepted", repr(r))
                self.push(dict(self.doc, basic=self.doc["basic"] | {n}))
                self.history(r)
                if rng.random() < .08:
                    self.step_elapse()

    def check_file(self, p):
        got = self.content(p)
        if got is None:
            self.bad("saved-unreadable", repr(open(p, "rb").read()[:600]))
        for k in ("gate", "basic", "house", "tree"):
            if got[k] != self.doc[k]:
                self.bad("saved-" + k, "%r instead of %r" % (sorted(got[k]), sorted(self.doc[k])))
        self.docs[p] = got
        if p in self.invalid:
            self.invalid.remove(p)

    def step_save(self):
        rng = self.rng
        if not self.loaded:
            return
        way = rng.choice(["save", "saveas"])
        if way == "save" and not self.modified and self.last["clean"]:
            return
        asks = way == "saveas" or len(self.files) != 1
        self.n += 1
        target = self.ctx.path("saved%d.xml" % self.n) if asks else self.files[0]
        before = self.listing()
        r = self.do(op=way, **({"path": target} if asks else {}))
        if r["boxes"]:
            self.bad("save-box", repr(r["boxes"]))
        self.files = [target]
        self.clean = self.idx
        self.history(r)
        self.untouched(before, target)
        self.check_file(target)

    def untouched(self, before, target=None):
        after = self.listing()
        for p in set(before) | set(after):
            if p != target and before.get(p) != after.get(p):
                self.bad("other-file-touched", "%s is %s" % (p, "changed" if p in before and p in after else "new" if p in after else "gone"))

    def step_elapse(self):
        before = self.listing()
        due = self.modified and len(self.files) == 1 and self.pref["auto"]
        r = self.do(op="elapse")
        if r["fired"] != bool(self.pref["auto"]):
            self.bad("auto-save-timer", "fired is %s for %d min" % (r["fired"], self.pref["auto"]))
        if r["boxes"]:
            self.bad("auto-save-box", repr(r["boxes"]))
        if due:
            self.clean = self.idx
            self.untouched(before, self.files[0])
            self.check_file(self.files[0])
            self.ctx.count("autosaves")
        else:
            self.untouched(before)
            self.ctx.count("autosaves_idle")
        self.history(r)

    # ---- searches
    def pattern(self, names):
        rng = self.rng
        n = rng.choice(names) if names else "x"
        i = rng.randrange(len(n))
        return rng.choice(["", n, n[:2], n[-2:], n[i:i + 3], "^" + n[:3], n[-3:] + "$", "^%s$" % n, "pump|x", "p.*1", "[0-9]f", n.upper(), "nothing", "f1$", "(a|u)"])

    def step_search(self):
        for _ in range(self.rng.choice([1, 1, 2, 4, 8]) if self.loaded else 0):
            self.search()

    def search(self):
        rng = self.rng
        step = {"op": "search"}
        q = rng.random()
        shut = None
        if self.tabs and q < .12:
            shut = step["shut"] = rng.randrange(len(self.tabs))
        elif not self.tabs or q < .5 and len(self.tabs) < 6:
            step["table"] = rng.choice([1, 2, 3])
        elif q < .85:
            step["tab"] = rng.randrange(len(self.tabs))
        new = "table" in step
        if new:
            self.tabs.append([step["table"], ""])
            cur = len(self.tabs) - 1
        elif shut is not None:
            self.tabs.pop(shut)
            cur = None
        else:
            cur = step.get("tab")
        if rng.random() < .7 and shut is None:
            names = sorted(self.doc[TABLE[self.tabs[cur][0]]]) if cur is not None else []
            step["text"] = self.pattern(names)
        r = self.do(**step)
        if r["tabs"] != len(self.tabs):
            self.bad("tabs", "%d tabs instead of %d" % (r["tabs"], len(self.tabs)))
        if not self.tabs:
            return
        if cur is not None and r["tab"] != cur:
            self.bad("current-tab", "%d instead of %d" % (r["tab"], cur))
        kind, text = self.tabs[r["tab"]]
        if not r["view"] or not r["bar"]:
            self.bad("search-bar", "hidden over a table: %r" % r)
        if r["before"] != text:
            self.bad("search-text", "%r shown, %r searched" % (r["before"], text))
        if "text" in step:
            if r["text"] != step["text"]:
                self.bad("search-typed", "%r instead of %r" % (r["text"], step["text"]))
            text = self.tabs[r["tab"]][1] = step["text"]
        got = sorted(x[0] for x in r["rows"])
        want = sorted(n for n in self.doc[TABLE[kind]] if re.search(text, n))
        if got != want:
            self.bad("search-rows", "%r shows %r instead of %r" % (text, got, want))
        if kind == 1:
            for row, under in zip(r["rows"], r["under"]):
                if sorted(under) != sorted(self.doc["args"][row[0]]):
                    self.bad("search-arguments", "%r under %s instead of %r" % (under, row[0], self.doc["args"][row[0]]))
        self.ctx.count("searches")

    # ---- languages
    def step_texts(self):
        r = self.do(op="texts")
        lang = self.lang
        if lang is None:
            return
        for n, src in self.ui.sources.items():
            if n not in r["texts"]:
                continue
            want = self.ui.translate(lang, "MainWindow", src)
            if want is not None and r["texts"][n] != want:
                self.bad("translation", "%s is %r instead of %r in %s" % (n, r["texts"][n], want, lang))
            self.ctx.count("texts_checked")
        if r["tree"] and self.loaded:
            for i, (src, k) in enumerate((("Fault Trees (%L1)", "tree"), ("Gates (%L1)", "gate"), ("Basic Events (%L1)", "basic"), ("House Events (%L1)", "house"))):
                want = self.ui.translate(lang, "QObject", src)
                if want is not None and r["tree"][i] != re.sub("%L?1", str(len(self.doc[k])), want):
                    self.bad("tree-text", "%r instead of %r for %d in %s" % (r["tree"][i], want, len(self.doc[k]), lang))
        if lang != "en":
            self.ctx.count("languages")

    # ---- sessions
    def case(self, ctx, rng, idx):
        self.ctx, self.rng = ctx, rng
        if not hasattr(self, "ui"):
            self.ui = Ui()
        self.utf8 = rng.random() < .75
        sys_lang = "C.UTF-8" if self.utf8 else rng.choice(["de_DE.UTF-8", "ru_RU.UTF-8", "fr_FR.UTF-8", "en_US.UTF-8"])
        self.docs, self.invalid, self.natives = {}, [], []
        for k in range(rng.randint(3, 9)):
            self.make(k)
        for name, data in (("bad.xml", "<opsa-mef><define-fault-tree/>"), ("undefined.xml", '<opsa-mef><define-fault-tree name="u"><define-gate name="g"><not><event name="nowhere"/></not></define-gate></define-fault-tree></opsa-mef>'),
                           ("missing.xml", None)):
            p = ctx.path(name)
            if data:
                with open(p, "w") as f:
                    f.write(data)
                self.invalid.append(p)
        self.recent, self.pref, self.n = [], {"undo": 0, "auto": 5, "lang": None}, 0
        for number in range(rng.choice([1, 2, 2, 3, 4])):
            self.session(number, sys_lang)
        ctx.sig(repr(self.s.log).replace(ctx.dir, ""))
        ctx.count("histories")

    def session(self, number, sys_lang):
        rng, ctx = self.rng, self.ctx
        self.loaded, self.files = False, []
        self.reset(empty())
        args, files, project = [], [], None
        if rng.random() < .4:
            pool = list(self.docs) + [p for p in self.invalid if rng.random() < .3]
            files = rng.sample(pool, min(len(pool), rng.choice([1, 1, 2, 3])))
            args = list(files)
            if rng.random() < .4:
                k = rng.randint(1, len(files))
                project = ctx.path("project%d.xml" % number)
                with open(project, "w") as f:
                    f.write('<scram><model>%s</model><options><limits><mission-time>%d</mission-time></limits></options></scram>' % (
                        "".join("<file>%s</file>" % p.replace("&", "&amp;") for p in files[:k]), 17))
                args = ["--project", project] + files[k:]
        self.at_start = list(self.recent)
        if self.pref["lang"]:
            self.lang = locale_of(self.pref["lang"])
        else:
            self.lang = {"C.UTF-8": "en", "en_US.UTF-8": "en", "fr_FR.UTF-8": "en", "de_DE.UTF-8": "de_DE", "ru_RU.UTF-8": "ru_RU"}[sys_lang]
        self.s = Program(self, ctx, args, sys_lang)
        try:
            r = self.s.first()
            self.saw(r)
            if args:
                self.load(files, r, "command line")
                ctx.count("command_lines")
            elif r["boxes"]:
                self.bad("start-box", repr(r["boxes"]))
            self.history(r)
            self.check_recent()
            steps = [(self.step_open, 3), (self.step_recent, 3), (self.step_clear, .4), (self.step_preferences, 2), (self.step_edit, 3), (self.step_save, 1), (self.step_elapse, 2), (self.step_search, 3), (self.step_new, .7), (self.step_texts, .8)]
            for _ in range(rng.randint(6, 22)):
                rng.choices([x for x, w in steps], [w for x, w in steps])[0]()
                if rng.random() < .3:
                    self.check_recent()
            self.check_recent()
            if self.modified and rng.random() < .3:
                r = self.do(op="quit", answer=CANCEL)
                self.history(r)
                self.check_recent()
            r = self.do(op="quit", answer=DISCARD)
            if len(r["boxes"]) != int(self.modified):
                self.bad("quit-asks", "%d questions, modified %s" % (len(r["boxes"]), self.modified))
            self.s.end()
        finally:
            self.s.kill()


def empty():
    return {"gate": set(), "basic": set(), "house": set(), "args": {}, "tree": set()}
