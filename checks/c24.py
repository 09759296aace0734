"""The GUI's tables and trees against the document or the analysis they show (harness/gui_model.cc, gui_results.cc)."""
import os, re
import gui_common, guimodel, mef, report


def close(a, b):
    return a == b or abs(a - b) <= 2e-5 * max(abs(a), abs(b)) or max(abs(a), abs(b)) < 1e-300


def text(h):
    return "" if h == "-" else bytes.fromhex(h).decode()


def cell(c):
    return {"D": float, "I": int, "S": text}[c[0]](c[1:])


class Check(gui_common.GuiCheck):
    ID = "C24"
    QUICK, THOROUGH = 260, 9000
    RULE = ("element tables: after every command, undo, redo and jump the rows, cells, children, headers, sorted and filtered pictures and remembered indexes equal the document, "
            "and a client that applies only the announced changes sees the same; result tables: the report tree, product and importance rows equal the XML report of the same analysis, "
            "in every sort order and filter")
    MIN = {"commands": 12000, "undos": 4000, "redos": 1500, "rows_checked": 300000, "sorted_rows_checked": 100000, "persistent_checked": 50000, "result_rows": 400, "results": 60, "sorted_orders": 500}
    ASSUMPTIONS = ["commands respect their documented preconditions (unique names, no parents on removal, no cycles)",
                   "the report tree shows gate targets only (the GUI does not open event trees)"]

    def case(self, ctx, rng, idx):
        if idx % 5 in (3, 4):
            return self.result_case(ctx, rng)
        d = guimodel.gen(rng, mission_exprs=.1)
        p = ctx.write("model.xml", guimodel.xml(d))
        steps = rng.choice([60, 150, 400]) if self.tier == "quick" else rng.choice([150, 400, 1500])
        out = self.verdict(ctx, self.drive(ctx, ["tables", p, rng.randrange(1 << 40), steps]), "history of %d steps" % steps)
        ctx.sig(d.name, len(d.basic), len(d.trees), steps, hash(out) & 0xffffffff)
        ctx.sample(guimodel.xml(d))

    def result_case(self, ctx, rng):
        algo = rng.choice(["bdd", "bdd", "zbdd", "mocus"])
        t = mef.gen_tree(rng, nb=rng.randint(3, 10), ng=rng.randint(2, 9), coherent=algo == "mocus" or rng.random() < .5)
        body = mef.tree_xml(t, rng=rng)
        bs = re.findall(r'<define-basic-event name="([^"]+)"', body)
        prob = rng.random() < .7
        ccf = rng.random() < .3
        ccfx = ""
        if ccf and len(bs) >= 2:
            m = rng.sample(bs, 2)
            body = re.sub(r'<define-basic-event name="(?:%s)">.*?</define-basic-event>' % "|".join(map(re.escape, m)), "", body, flags=re.S)
            ccfx = ('<define-CCF-group name="ccf" model="beta-factor"><members>%s</members><distribution><float value="%s"/></distribution>'
                    '<factor level="2"><float value="0.2"/></factor></define-CCF-group>' % ("".join('<basic-event name="%s"/>' % x for x in m), rng.choice(["0.1", "0.05", "0"])))
        doc = body.replace("</opsa-mef>", ccfx + "</opsa-mef>")
        p = ctx.write("model.xml", doc)
        rep = ctx.path("report.xml")
        args = ["results", p, rep, algo, "none" if algo == "bdd" and rng.random() < .6 else rng.choice(["rare-event", "mcub"]), "0", int(prob), int(prob and rng.random() < .7),
                int(ccf), rng.choice([20, 20, 3, 2, 1]), rng.choice(["8760", "100"])]
        if args[4] == "none" and algo == "bdd" and rng.random() < .4:
            args[5] = "1"
        out = self.verdict(ctx, self.drive(ctx, args), "results of %s" % " ".join(map(str, args[3:])))
        r = report.Report(open(rep, "rb").read())
        self.compare(ctx, r, out, prob, args[7] == 1)
        ctx.sig(*args[3:], len(doc), hash(out) & 0xffffffff)
        ctx.sample(doc)

    def compare(self, ctx, r, out, prob, imp):
        lines = [l for l in out.splitlines() if re.match(r"(RESULTS|TOP|CHILD|LOCALE|TABLE|ROW)\b", l)]
        bad = lambda key, m: ctx.fail(key, m, stop=True)
        n = int(lines.pop(0).split()[1])
        if n != len(r.sops):
            bad("report-rows", "%d rows for %d analysed targets" % (n, len(r.sops)))
        for s in r.sops:
            w = lines.pop(0).split()
            if w[0] != "TOP" or text(w[1]) != s.key[0]:
                bad("report-row", "row %r for %s" % (text(w[1]), s.key[0]))
            kids = [text(lines.pop(0).split()[1]) for _ in range(int(w[2]))]
            loc = lines.pop(0).split()[1:]
            want = ["Products (%s)" % text(loc[0])]
            if text(loc[0]).replace(",", "") != str(s.nproducts):
                bad("product-count", "%s products in the result, %d reported" % (text(loc[0]), s.nproducts))
            if prob:
                m = re.fullmatch(r"Probability \((.*)\)", kids[1] if len(kids) > 1 else "")
                if not m or not close(float(m.group(1)), s.p):
                    bad("report-probability", "shows %r for probability %r" % (kids, s.p))
                want.append(kids[1])
            if imp:
                want.append("Importance Factors (%s)" % text(loc[1]))
            if kids != want:
                bad("report-children", "%r instead of %r" % (kids, want))
            self.products(ctx, s, self.table(lines), prob, bad)
            if imp:
                self.importance(ctx, [i for i in r.importance if i[0] == s.key][0][2], self.table(lines), bad)
        if lines:
            bad("report-extra", lines[0])

    def table(self, lines):
        head = [text(h) for h in lines.pop(0).split()[2:]]
        rows = []
        while lines and lines[0].startswith("ROW"):
            rows.append([cell(c) for c in lines.pop(0).split()[1:]])
        return head, rows

    def products(self, ctx, s, t, prob, bad):
        head, rows = t
        if head != ["Product", "Order", "Probability", "Contribution"][:4 if prob else 2]:
            bad("product-header", repr(head))
        want = {}
        tot = sum(p.p for p in s.products) if prob else 0
        for p in s.products:
            want[frozenset(("\u00ac" if neg else "") + n for neg, n in p.lits)] = (p.order, p.p)
        if len(rows) != len(want):
            bad("product-rows", "%d rows for %d products" % (len(rows), len(want)))
        real = sum(r[2] for r in rows) if prob else 0
        for r in rows:
            k = frozenset(r[0].split(" \u22c5 ")) if r[0] else frozenset()
            if len(k) != len(r[0].split(" \u22c5 ")) and r[0]:
                bad("product-text", r[0])
            if k not in want:
                bad("product-unknown", "row %r is no product of the report" % r[0])
            o, p = want.pop(k)
            if r[1] != o:
                bad("product-order", "%r has order %r, reported %r" % (r[0], r[1], o))
            if prob and not close(r[2], p):
                bad("product-probability", "%r has probability %r, reported %r" % (r[0], r[2], p))
            if prob:
                c = r[2] / real if real else 0
                if not abs(r[3] - c) <= 1e-9 * max(1, abs(c)) or real and not abs(r[3] - p / tot) < 1e-4:
                    bad("product-contribution", "%r contributes %r instead of %r" % (r[0], r[3], c))
            ctx.count("result_rows")

    def importance(self, ctx, want, t, bad):
        head, rows = t
        if head != ["ID", "Occurrence", "Probability", "MIF", "CIF", "DIF", "RAW", "RRW"]:
            bad("importance-header", repr(head))
        w = dict(want)
        if len(rows) != len(w):
            bad("importance-rows", "%d rows for %d records" % (len(rows), len(w)))
        for r in rows:
            if r[0] not in w:
                bad("importance-unknown", repr(r[0]))
            for h, c in zip(head[1:], r[1:]):
                v = w[r[0]][h.lower() if h in ("Occurrence", "Probability") else h]
                if not (close(c, v) or c != c and v != v):
                    bad("importance-cell", "%s of %s is %r, reported %r" % (h, r[0], c, v))
            del w[r[0]]
            ctx.count("result_rows")
