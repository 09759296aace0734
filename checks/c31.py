"""The GUI's input validators against the definition of the entries (gui_driver validate)."""
import ctypes, re, unicodedata
from fractions import Fraction
from xml.sax.saxutils import quoteattr
import gui_common

XML = ctypes.CDLL("libxml2.so.2")
LOCALES = ["C.UTF-8", "en_US.UTF-8", "de_DE.UTF-8", "fr_FR.UTF-8", "ru_RU.UTF-8", "ar_EG.UTF-8", "hi_IN.UTF-8", "pt_BR.UTF-8"]
LETTERS = "abzAZxqé\u00df\u0416\u0438\u043c\u044f\u03b1\u03a9\u540d\u524d\ud55c\u3042\u05d0\u0627\u0e01\u0905\u10d0\u0531\u0250\u01f0"
FOREIGN = "\u00b5\u00aa\u1200\u0d9a\U0001d49c\u0237\u0525\u00b2\u00bd\u2167\u0370\uff21\U00020000\u2c00\u1780\uab30"   # letters and numbers that XML names lack
DIGITS = "0123456789"
OTHER = " .:!~-_@#$%^&*()+=/\\|?<>,;'\"[]{}\t\n\r\0\u00a0\u200b\u0301\u00ad\ufeff\u2013\u2014\u00b7\u0660\u0669\uff10\u3007\u0902\ud800\udc00\u2028e"


def units(s):
    b = s.encode("utf-16-be", "surrogatepass")
    return " ".join("%02x%02x" % (b[i], b[i + 1]) for i in range(0, len(b), 2))


def surrogates(s):
    return s.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "replace") != s or any(0xd800 <= ord(c) < 0xe000 for c in s)


def letter(c):
    return unicodedata.category(c)[0] == "L"


def word(c):
    return c == "_" or unicodedata.category(c)[0] in "LN"


def legal_name(s):
    if not s or surrogates(s) or "\0" in s or not letter(s[0]):
        return False
    parts = s.split("-")
    if not all(parts) or not all(word(c) for p in parts for c in p):
        return False
    return XML.xmlValidateNCName(s.encode(), 0) == 0


NUM = re.compile(r"\+?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?\Z")
MAX = Fraction(1.7976931348623157e308)


def legal_number(s, top):
    """True, False or None where the definition leaves room (signed zeros, values that round across a bound)."""
    if re.fullmatch(r"-[0-9.]*([eE].*)?", s) and not re.search(r"[1-9]", s.split("e")[0].split("E")[0]):
        return None
    if not NUM.match(s):
        return False
    m = re.split("[eE]", s)
    if len(m) == 2 and abs(int(m[1])) > 3000:
        big = int(m[1]) > 0
        if not re.search("[1-9]", m[0]):
            return None
        return False if big else None
    v = Fraction(m[0].rstrip(".") if m[0].strip("+").rstrip(".") else "0") * Fraction(10) ** (int(m[1]) if len(m) == 2 else 0)
    if 0 < v < Fraction(2.3e-308):
        return None
    if abs(v - top) < top * Fraction(1, 10 ** 12) and v != top:
        return None
    if len(m[0].split(".")[-1]) > 900:
        return None
    return v <= top


def mutate(rng, s, pool):
    s = list(s)
    for _ in range(rng.choice([0, 0, 1, 1, 1, 2, 3])):
        r = rng.random()
        i = rng.randrange(len(s) + 1)
        if r < .5:
            s.insert(i, rng.choice(pool))
        elif s and r < .75:
            del s[min(i, len(s) - 1)]
        elif s:
            s[min(i, len(s) - 1)] = rng.choice(pool)
    return "".join(s)


def gen_name(rng):
    seg = lambda a: "".join(rng.choice(a) for _ in range(rng.choice([1, 1, 2, 3, 8] + [40] * (rng.random() < .1))))
    body = LETTERS + DIGITS + "__"
    s = rng.choice(LETTERS) + "-".join(seg(body) for _ in range(rng.choice([1, 1, 2, 3, 4, 6, 12])))
    r = rng.random()
    if r < .35:
        return s
    if r < .75:
        return mutate(rng, s, LETTERS + DIGITS + OTHER + "---__" + FOREIGN)
    if r < .8:
        c = chr(rng.choice([rng.randrange(32, 0x250), rng.randrange(0x250, 0xd800), rng.randrange(0xe000, 0x10000), rng.randrange(0x10000, 0x30000)]))
        return rng.choice([c, "a" + c, c + "a", "a-" + c])
    if r < .85:
        return seg(OTHER)
    return "".join(rng.choice(rng.choice([LETTERS, DIGITS, "-", "_", OTHER, FOREIGN])) for _ in range(rng.randrange(0, 8)))


def gen_number(rng):
    r = rng.random()
    d = lambda n: "".join(rng.choice(DIGITS) for _ in range(n))
    s = rng.choice([repr(rng.random()), "%.3g" % (10 ** rng.uniform(-12, 3)), "1", "0", "0.5", "1.0", "1e-5", "2.5E3", d(rng.randint(1, 6)) + "." + d(rng.randint(0, 5)), "." + d(3),
                    "1" + "0" * rng.randint(0, 9) + "e-%d" % rng.randint(0, 9), "1,000", "0,5", "1.7976931348623157e308", "1e308", "1e309", "1e%d" % rng.randint(-400, 400), "+" + d(2), "-" + d(1),
                    "1.000001", "0.999999", "1.1", "inf", "nan", "0x1", "1e", "e5", "", ".", "\u0665", "1\u00a0000", "1 000", "1'000", "0." + d(300), d(300), "1.234,5", "1d", "0.5f", "5%"])
    if r < .5:
        return s
    return mutate(rng, s, DIGITS + "..eE+-, \u00a0\u066b\u0663%xf'\n" + "0123456789")


def gen_percent(rng):
    s = rng.choice(["%d", "%d%%"]) % rng.choice([1, 5, 10, 25, 100, 400, 1010, rng.randrange(1, 10 ** 9), rng.randrange(1, 10 ** 30)])
    if rng.random() < .35:
        return s
    return rng.choice([mutate(rng, s, DIGITS + "%%%00 .-+e,\u0661\n"), mutate(rng, s, DIGITS), "0", "00", "%", "", "-1", "1 %", "%1", "1%%", "\uff11", "1e2", "\u0661"])


class Check(gui_common.GuiCheck):
    ID = "C31"
    QUICK, THOROUGH = 640, 20000
    RULE = ("an entry is Acceptable exactly when the definition accepts it, whatever the locale; the text stays as typed; a line edit with the validator takes it and converts it to the number written; "
            "no prefix of an acceptable entry is refused while typing; scram itself accepts a document with the accepted names and values")
    MIN = {"entries": 250000, "accepted_name": 60000, "accepted_probability": 20000, "accepted_nonNegative": 30000, "accepted_percent": 30000, "refused": 80000, "documents": 150, "prefixes": 100000}
    ASSUMPTIONS = ["signed zeros, subnormal values and values that round across a bound may go either way", "a legal name is a letter, then letters, numbers, underscores and single inner dashes, all of them allowed in XML names"]

    def case(self, ctx, rng, idx):
        loc = LOCALES[idx % len(LOCALES)]
        items = []
        for _ in range(400):
            w = rng.choice(["name", "name", "percent", "probability", "nonNegative"])
            s = {"name": gen_name, "percent": gen_percent}.get(w, gen_number)(rng)
            items.append((w, s))
        full = []
        for w, s in items:
            full.append((w, s, None))
            if rng.random() < .25 and self.legal(w, s):
                full += [(w, s[:i], s) for i in range(1, len(s)) if not 0xd800 <= ord(s[i]) < 0xe000][:40]
        f = ctx.write("entries", "".join("%s\t%s\n" % (w, units(s)) for w, s, _ in full))
        self.locale = loc
        out = self.verdict(ctx, self.drive(ctx, ["validate", f], env={"LC_ALL": loc, "LANG": loc, "LANGUAGE": loc}), "validation under " + loc)
        res = [l.split()[1:] for l in out.splitlines() if l.startswith("R ")]
        if len(res) != len(full):
            ctx.fail("answers", "%d answers for %d entries" % (len(res), len(full)), stop=True)
        names, probs, rates = [], [], []
        for (w, s, whole), r in zip(full, res):
            state, same, acc, isnum, typed, tacc = int(r[0]), r[1] == "1", r[2] == "1", r[3] == "1", r[5] == "1", r[6] == "1"
            v = float(r[4])
            ctx.count("entries")
            where = "%s %r under %s" % (w, s, loc)
            if not same:
                ctx.fail("text-changed:" + w, where, stop=True)
            want = self.legal(w, s)
            if want is not None and (state == 2) != want:
                ctx.fail(("refused:" if want else "accepted:") + w, "%s: state %d" % (where, state), stop=True)
            if acc != (state == 2) or typed and tacc != acc or typed != (state != 0) and "\n" not in s and s.isprintable():
                ctx.fail("line-edit:" + w, "%s: state %d, acceptable %s, typed %s %s" % (where, state, acc, typed, tacc), stop=True)
            if whole is not None:
                ctx.count("prefixes")
                if state == 0:
                    ctx.fail("prefix-refused:" + w, "%s, a prefix of the legal %r" % (where, whole), stop=True)
            if state == 2:
                ctx.count("accepted_" + w)
                if w in ("probability", "nonNegative"):
                    if not isnum:
                        ctx.fail("not-convertible:" + w, where, stop=True)
                    if want and abs(v - float(s)) > 1e-15 * abs(float(s)):
                        ctx.fail("value:" + w, "%s becomes %r" % (where, v), stop=True)
                    (probs if w == "probability" else rates).append(s)
                elif w == "name":
                    names.append(s)
            else:
                ctx.count("refused")
        low, pick = set(), []
        for n in names:
            if n.lower() not in low and n not in ("t", "top"):
                low.add(n.lower())
                pick.append(n)
        if idx % 3 == 0 and len(pick) >= 3:
            # the model accepts what the validators accept
            defs = []
            for i, n in enumerate(pick):
                if i % 2 and rates:
                    e = '<exponential><float value="%s"/><float value="1"/></exponential>' % rng.choice(rates).lstrip("+")
                else:
                    e = '<float value="%s"/>' % (rng.choice(probs).lstrip("+") if probs else "0")
                defs.append("<define-basic-event name=%s>%s</define-basic-event>" % (quoteattr(n), e))
            args = "".join("<basic-event name=%s/>" % quoteattr(n) for n in pick)
            p = ctx.write("model.xml", '<?xml version="1.0" encoding="UTF-8"?>\n<opsa-mef><define-fault-tree name="t"><define-gate name="top"><or>%s</or></define-gate></define-fault-tree><model-data>%s</model-data></opsa-mef>\n' % (args, "".join(defs)))
            r = ctx.scram(["--validate", p])
            ctx.count("documents")
            if r.code != 0:
                ctx.fail("model-refuses", "scram refuses the accepted entries: %s" % r.err[-600:], stop=True)
        ctx.sig(loc, tuple((int(r[0])) for r in res[:200]))

    def legal(self, w, s):
        if w == "name":
            return legal_name(s)
        if w == "percent":
            return re.fullmatch(r"[1-9][0-9]*%?", s) is not None and not s.endswith("\n")
        return legal_number(s, Fraction(1) if w == "probability" else MAX)
