import math, re
import core, build, rich, schema, options, ft_common
from rich import N, Ref
from report import Report, ident


def refs(node, out):
    for v in node.at.values():
        if isinstance(v, Ref):
            out.append((node.tag, v))
    for c in node.ch:
        refs(c, out)


def used_elements(m):
    """kind -> set of keys that some definition refers to."""
    used = {}
    maybe = set()
    for (kind, key), it in m.items.items():
        rs = []
        refs(it.node, rs)
        for tag, r in rs:
            if tag.startswith("define-") and tag not in ("define-initiating-event",):
                continue
            if tag in ("test-functional-event", "test-initiating-event"):
                continue
            if r.kind == "ccf-member":
                continue
            if r.kind == "public-house":
                maybe.add(("house-event", r.key))
                continue
            used.setdefault(r.kind, set()).add(r.key)
            if tag == "define-initiating-event":
                used.setdefault("initiating-event", set()).add(key)
    return used, maybe


class Check(core.BaseCheck):
    ID = "C14"
    QUICK, THOROUGH = 2000, 30000
    RULE = ("random models of every construct with hostile labels, attributes and Unicode names, spelled with random scopes and roles over one to three files, under random settings; the report's bytes are "
            "validated against share/report.rng by libxml2 in another process, then its features, calculated quantities, unused-element warnings, result sections and attributes are compared with the "
            "abstract model and settings; non-trivial: a schema-validated report with at least one result section, distinct by its sections and settings")
    MIN = {"distinct": 500, "sections": 4000, "validated": 700, "unused_warnings": 300, "features": 3000}
    ASSUMPTIONS = ["the schema published in share/report.rng is taken as the contract", "labels and attributes are not part of the report"]

    def case(self, ctx, rng, idx):
        m = rich.Rich(rng, small=rng.random() < 0.6)
        kw = dict(plain=rng.random() < 0.15, nfiles=rng.choice([1, 1, 1, 2, 3]))
        sp, docs = rich.spell(m, rng, **kw)
        files = [ctx.write("m%d.xml" % i, d) for i, d in enumerate(docs)]
        o = options.Options(rng)
        if o.prime and not m.coherent and len(m.basics) > 12:
            o.prime = False
        if any(i.kind == "substitution" for i in m.items.values()) and o.prime:
            o.prime = False
        e = o.eff()
        out = ctx.path("out.xml")
        args = o.cli(rng) + ["-o", out]
        if rng.random() < 0.3:
            args.append("--no-indent")
        args += files
        r = ctx.scram(args, slow_ok=e.algorithm == "mocus", timeout=30)
        if r.timeout:
            return
        if r.code == 1 and b"non-declarative" in r.err.lower():
            ctx.count("rejected_settings")
            return
        if r.code == 1 and self.refusable(m, e, r.err):
            ctx.count("refused_combination")
            return
        rep = ft_common.load(ctx, r, out)
        data = core.rd(out)
        try:
            text = data.decode("utf-8")
        except UnicodeDecodeError as x:
            ctx.fail("encoding", "not UTF-8: %s" % x, stop=True)
        if not text.startswith('<?xml version="1.0"?>') and not text.startswith("<?xml"):
            ctx.fail("declaration", text[:80])
        bad = schema.validate(build.REPO + "/share/report.rng", out)
        ctx.count("validated")
        if bad:
            msg = re.sub(r"^\w+ [^ ]+ ", "", bad)
            ctx.fail("schema:" + re.sub(r"[\d.e+-]+", "N", re.sub(r"'[^']*'|element \S+", "", msg))[:60] + self.where(bad), "%s\nargs %s" % (bad, args))
        self.information(ctx, m, sp, e, rep)
        self.results(ctx, m, sp, e, rep)
        ctx.sample("%s\n%s" % (args, docs[0][:600]))

    def where(self, bad):
        mm = re.search(r":(/\S+)", bad)
        return "@" + re.sub(r"\[\d+\]", "", mm.group(1)) if mm else ""

    def refusable(self, m, e, err):
        """Combinations of model and settings documented as unsupported."""
        if any(k[0] == "substitution" for k in m.items):
            return b"substitution" in err.lower()
        return False

    def information(self, ctx, m, sp, e, rep):
        info = rep.info
        tags = [x.tag for x in info]
        for t in ("software", "time", "model-features"):
            if tags.count(t) != 1:
                ctx.fail("information:" + t, "%d elements %s" % (tags.count(t), t))
        if not re.fullmatch(r"\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d", (info.find("time").text or "").strip()):
            ctx.fail("information:time-format", info.find("time").text)
        got, want = options.reported(rep.root), options.quantities(e)
        if got != want:
            ctx.fail("quantities", "reported %s, settings mean %s" % (got, want))
        count = {}
        for kind, _ in m.items:
            count[kind] = count.get(kind, 0) + 1
        nb = count.get("basic-event", 0) + len(getattr(m, "ccf_of", {}))
        exp = {"gates": count.get("gate", 0), "basic-events": nb, "house-events": count.get("house-event", 0), "ccf-groups": count.get("CCF-group", 0), "fault-trees": len(m.fts),
               "event-trees": count.get("event-tree", 0), "functional-events": sum(map(len, getattr(m, "fes", {}).values())), "sequences": sum(map(len, getattr(m, "seqs", {}).values())),
               "rules": count.get("rule", 0), "initiating-events": count.get("initiating-event", 0), "substitutions": count.get("substitution", 0)}
        exp = {k: str(v) for k, v in exp.items() if v}
        mf = info.find("model-features")
        got = {x.tag: (x.text or "").strip() for x in mf}
        ctx.count("features", len(exp))
        if got != exp or len(mf) != len(got):
            ctx.fail("features", "reported %s, model has %s" % (got, exp))
        if mf.get("name") != sp.model_name:
            ctx.fail("model-name", "reported %r, model is %r" % (mf.get("name"), sp.model_name))
        # Unused elements.
        used, maybe = used_elements(m)
        exp = {}
        for (kind, key) in list(m.items) + [("basic-event", b) for b in getattr(m, "ccf_of", {})]:
            head = {"basic-event": "Unused basic events: ", "house-event": "Unused house events: ", "parameter": "Unused parameters: ", "initiating-event": "Unused initiating events: ",
                    "event-tree": "Unused event trees: ", "rule": "Unused rules: "}.get(kind)
            if head and key not in used.get(kind, ()):
                name = sp.id(kind, key) if (kind, key) in sp.scope else sp.names[(kind, key)]
                exp.setdefault(head, set()).add(name)
        for l in getattr(m, "seqs", {}).values():
            for s in l:
                if s not in used.get("sequence", ()):
                    exp.setdefault("Unused sequences: ", set()).add(sp.names[("sequence", s)])
        for i, l in getattr(m, "fes", {}).items():
            for q in l:
                if q not in used.get("functional-event", ()):
                    exp.setdefault("In event tree %s, unused functional events: " % sp.names[("event-tree", m.ets[i])], set()).add(sp.names[("functional-event", q)])
            et = m.items[("event-tree", m.ets[i])].node
            for c in et.ch:
                if c.tag == "define-branch":
                    exp.setdefault("In event tree %s, unused branches: " % sp.names[("event-tree", m.ets[i])], set()).add(c.at["@name"].key)
        optional = {sp.id(*k) for k in maybe}
        seen = {}
        for w in rep.warnings():
            h = re.match(r".*: ", w)
            if not h or h.group(0) in seen:
                ctx.fail("warning-form", "warning %r" % w)
                continue
            names = w[h.end():].split(" ")
            if len(names) != len(set(names)):
                ctx.fail("warning-duplicate", w)
            seen[h.group(0)] = set(names)
        for h in set(seen) | set(exp):
            a, b = seen.get(h, set()), exp.get(h, set())
            if h.startswith("Unused house"):
                a, b = a - optional, b - optional
            ctx.count("unused_warnings")
            if a != b:
                ctx.fail("unused:" + re.sub(r"In event tree \S+, ", "", h), "%r reported %s, model has %s" % (h, sorted(a), sorted(b)))

    def results(self, ctx, m, sp, e, rep):
        if rep.results is None:
            keys = []
        else:
            keys = [(r.tag,) + ident(r) for r in rep.results]
        ctx.count("sections", len(keys))
        if len(keys) != len(set(keys)):
            ctx.fail("section-duplicate", "%s" % [k for k in keys if keys.count(k) > 1][:3])
        phases = [(None, None)]
        if any(k[0] == "alignment" for k in m.items):
            phases = [(sp.names[("alignment", key)], x.at["@name"].key) for (kind, key), it in m.items.items() if kind == "alignment" for x in it.node.ch]
        # Top events.
        child = set()
        for (kind, key), it in m.items.items():
            if kind == "gate":
                rs = []
                refs(it.node, rs)
                child |= {r.key for _, r in rs if r.kind == "gate" and m.items[("gate", r.key)].ft == it.ft}
        tops = [sp.id("gate", k[1]) for k in m.items if k[0] == "gate" and k[1] not in child]
        per = ["sum-of-products"] + (["curve"] if e.probability and e.time_step else []) + (["safety-integrity-levels"] if e.sil else []) + (["importance"] if e.importance else []) + (["measure"] if e.uncertainty else [])
        want = {(t, g, None, a, p) for g in tops for a, p in phases for t in per}
        ies = [sp.names[k] for k, it in m.items.items() if k[0] == "initiating-event" and it.node.at]
        got = set(keys)
        top_got = {k for k in got if k[2] is None and k[0] != "initiating-event"}
        if top_got != want:
            ctx.fail("sections", "missing %s extra %s" % (sorted(map(str, want - top_got))[:3], sorted(map(str, top_got - want))[:3]))
        seqnames = {sp.names[("sequence", s)] for l in getattr(m, "seqs", {}).values() for s in l}
        reached = {}
        for k in got:
            if k[2] is not None:
                reached.setdefault((k[2], k[3], k[4]), {}).setdefault(k[1], set()).add(k[0])
        sper = set(per) - ({"sum-of-products", "importance"} if m.et_expr else set())
        for ctxkey, d in reached.items():
            if ctxkey[0] not in ies or ctxkey[1:] not in phases:
                ctx.fail("sequence-context", "%s" % (ctxkey,))
            for s, tags in d.items():
                if s not in seqnames or tags != sper and not (m.et_expr and tags == set(per)):   # Paths without any expression are formulas.
                    ctx.fail("sequence-sections", "sequence %s of %s: sections %s, expected %s" % (s, ctxkey, sorted(tags), sorted(sper)))
        if sper:
            for i in ies:
                for a, p in phases:
                    if (i, a, p) not in reached:
                        ctx.fail("sequences-missing", "no sequence results of %s %s" % (i, (a, p)))
        ie_sections = {}
        for key, el, seqs in rep.ies:
            ie_sections[(key[0], key[2], key[3])] = seqs
            if int(el.get("sequences")) != len(seqs) or len({n for n, _ in seqs}) != len(seqs):
                ctx.fail("sequence-count", "%s: sequences=%s entries %s" % (key, el.get("sequences"), seqs))
            if sper and {n for n, _ in seqs} != set(reached.get((key[0], key[2], key[3]), {})):
                ctx.fail("sequence-list", "%s lists %s, sections for %s" % (key, sorted(n for n, _ in seqs), sorted(reached.get((key[0], key[2], key[3]), {}))))
        want = {(i, a, p) for i in ies for a, p in phases} if e.probability else set()
        if set(ie_sections) != want:
            ctx.fail("initiating-events", "reported %s, model has %s" % (sorted(map(str, ie_sections)), sorted(map(str, want))))
        # Contents.
        ids = sp.ids()
        groups = {sp.id("CCF-group", k[1]): m.items[k] for k in m.items if k[0] == "CCF-group"}
        for s in rep.sops:
            evs = {v for p in s.products for _, v in p.lits}
            if s.nproducts != len(s.products) or s.basic_events != len(evs):
                ctx.fail("sop-counts", "%s: products=%d of %d, basic-events=%d of %d" % (s.key, s.nproducts, len(s.products), s.basic_events, len(evs)))
            orders = [max(1, len(p.lits)) for p in s.products]
            if [p.order for p in s.products] != orders:
                ctx.fail("product-order", "%s: orders %s, literals %s" % (s.key, [p.order for p in s.products][:9], orders[:9]))
            if s.products:
                d = [0] * max(orders)
                for x in orders:
                    d[x - 1] += 1
                if s.dist != " ".join(map(str, d)):
                    ctx.fail("distribution", "%s: %r, products give %s" % (s.key, s.dist, d))
            if (s.p is not None) != e.probability:
                ctx.fail("sop-probability", "%s: probability %r with probability analysis %s" % (s.key, s.p, e.probability))
            if e.probability and s.products and sum(p.p for p in s.products) > 1e-290:
                if any(p.contrib is None for p in s.products) or abs(sum(p.contrib for p in s.products) - 1) > 1e-5 * len(s.products):
                    ctx.fail("contributions", "%s: sum %r" % (s.key, [p.contrib for p in s.products][:9]))
        for el in rep.root.iter():
            if el.tag == "basic-event" and el.get("name") not in ids:
                par = next(x for x in rep.root.iter() if el in list(x))
                if par.tag != "ccf-event":
                    ctx.fail("event-name", "reported basic event %r is not in the model" % el.get("name"))
            if el.tag == "basic-event" and el.get("name") in ids and ids[el.get("name")] not in m.basics:
                if next(x for x in rep.root.iter() if el in list(x)).tag != "ccf-event":
                    ctx.fail("event-kind", "reported basic event %r is another kind of element" % el.get("name"))
            if el.tag == "ccf-event":
                grp = groups.get(el.get("ccf-group"))
                if grp is None:
                    ctx.fail("ccf-group", "reported CCF group %r is not in the model" % el.get("ccf-group"))
                    continue
                mem = {sp.names[("basic-event", c.at["name"].key)] for c in grp.node.ch[0].ch}
                mine = [x.get("name") for x in el]
                if int(el.get("order")) != len(mine) or int(el.get("group-size")) != len(mem) or len(set(mine)) != len(mine) or not set(mine) <= mem:
                    ctx.fail("ccf-event", "order %s size %s members %s; group %s" % (el.get("order"), el.get("group-size"), mine, sorted(mem)))
                if not e.ccf:
                    ctx.fail("ccf-off", "CCF event reported without CCF analysis")
            for k, v in el.attrib.items():
                if k in ("probability", "value", "lower-bound", "upper-bound", "MIF", "CIF", "DIF", "RAW", "RRW", "X", "Y", "contribution", "PFD-avg", "PFH-avg") and not math.isfinite(float(v)):
                    ctx.fail("not-finite:" + el.tag + k, "%s %s=%s" % (el.tag, k, v))
        sop_events = {s.key: {v for p in s.products for _, v in p.lits} for s in rep.sops}
        for key, el, evs in rep.importance:
            names = [n for n, _ in evs]
            if int(el.get("basic-events")) != len(names) or len(set(names)) != len(names):
                ctx.fail("importance-count", "%s: %s of %d entries" % (key, el.get("basic-events"), len(names)))
            if set(names) != sop_events.get(key):
                ctx.fail("importance-events", "%s: %s, products have %s" % (key, sorted(names), sorted(sop_events.get(key, []))))
        for key, el in rep.measures:
            q, h = el.find("quantiles"), el.find("histogram")
            if int(q.get("number")) != len(q) or int(h.get("number")) != len(h):
                ctx.fail("measure-count", "%s" % (key,))
            if len(q) != e.quantiles or len(h) != e.bins:
                ctx.fail("measure-settings", "%s: %d quantiles of %d, %d bins of %d" % (key, len(q), e.quantiles, len(h), e.bins))
        perf = rep.info.find("performance")
        pk = [ident(x) for x in perf] if perf is not None else []
        res = {k[1:] for k in keys if k[0] != "initiating-event"}
        if len(pk) != len(set(pk)) or not res <= set(pk):
            ctx.fail("performance", "calculation times %s, results %s" % (pk[:4], sorted(map(str, res - set(pk)))[:4]))
        for t in keys:
            ctx.count("section_" + t[0])
        if keys:
            ctx.sig(sorted(map(str, keys)), str(options.quantities(e)))
