"""Random expressions of the exchange format with an independent evaluator."""
import math
from xml.sax.saxutils import quoteattr

BIG = 1e4


class Reject(Exception):
    pass


class Node:
    """op, args, data; v: mean value; iv: the domain interval by the documented endpoint rule; exact: free of rounding."""
    __slots__ = ("op", "args", "data", "v", "iv", "exact", "dev")

    def __init__(self, op, args=(), data=None):
        self.op, self.args, self.data = op, list(args), data
        self.dev = any(a.dev for a in self.args) or op in DEVIATES

    def xml(self, style=None):
        o = self.op
        if o == "int":
            return '<int value="%d"/>' % self.data
        if o == "float":
            return '<float value="%s"/>' % repr(float(self.data))
        if o == "bool":
            return '<bool value="%s"/>' % ("true" if self.data else "false")
        if o == "pi":
            return "<pi/>"
        if o == "time":
            return "<system-mission-time/>"
        if o == "param":
            return "<parameter name=%s%s/>" % (quoteattr(self.data[0]), " unit=%s" % quoteattr(self.data[1]) if self.data[1] else "")
        if o == "switch":
            n = len(self.args) - 1
            return "<switch>%s%s</switch>" % ("".join("<case>%s%s</case>" % (self.args[i].xml(), self.args[i + 1].xml()) for i in range(0, n, 2)), self.args[-1].xml())
        if o == "histogram":
            b, w = self.data
            return "<histogram>%s%s</histogram>" % (self.args[0].xml(), "".join("<bin>%s%s</bin>" % (self.args[1 + i].xml(), self.args[b + i].xml()) for i in range(w)))
        return "<%s>%s</%s>" % (o, "".join(a.xml() for a in self.args), o)

    def ops(self, acc):
        acc.add(self.op if self.op != "periodic-test" else "periodic-test%d" % len(self.args))
        for a in self.args:
            a.ops(acc)
        return acc


DEVIATES = {"uniform-deviate", "normal-deviate", "lognormal-deviate", "gamma-deviate", "beta-deviate", "histogram"}


def cint(x):
    if not (abs(x) < 2 ** 31 - 1):
        raise Reject()
    return int(x)


def cmod(a, b):
    a, b = cint(a), cint(b)
    if b == 0:
        raise Reject()
    return float(math.fmod(a, b))


def p_exp(l, t):
    return 1 - math.exp(-l * t)


def chain(l, mu, q, p, t):
    """State (available a, failed f, repair r) after time t without tests; q, p: initial failed, repaired shares.

    The exact solution of a' = -l a + mu r, f' = l a, r' = -mu r."""
    a0, f0, r0 = 1 - q - p, q, p
    r = r0 * math.exp(-mu * t)
    if abs(l - mu) < 1e-12 * max(l, mu):
        a = math.exp(-l * t) * (a0 + mu * r0 * t)
    else:
        a = a0 * math.exp(-l * t) + mu * r0 * (math.exp(-mu * t) - math.exp(-l * t)) / (l - mu)
    return 1 - a - r, r


def periodic(args):
    if len(args) == 4:
        l, tau, th, t = args
        if t <= th:
            return p_exp(l, t)
        d = t - th
        n = d / tau
        edge(n)
        rest = d - int(n) * tau
        return p_exp(l, rest if rest else tau)
    if len(args) == 5:
        l, mu, tau, th, t = args
        if t <= th:
            return p_exp(l, t)
        d = t - th
        n = d / tau
        edge(n)
        f = p_exp(l, th)
        r = 0.0
        r, f = f + r, 0.0          # The test finds the failure, the repair starts at once.
        for _ in range(int(n)):
            f, r = chain(l, mu, f, r, tau)
            r, f = f + r, 0.0
        f, r = chain(l, mu, f, r, d - int(n) * tau)
        return f + r
    l, lt, mu, tau, th, ga, pi, av, si, om, t = args
    if t <= th:
        return p_exp(l, t)
    f, r = p_exp(l, th), 0.0
    a = 1 - f

    def again(pm, pl, x):
        """Repaired and failed again within x."""
        if l == mu:
            two = pl - (1 - pl) * l * x
        else:
            two = (l * pm - mu * pl) / (l - mu)
        return pm * om + (1 - om) * two

    def test(x, avail=True):
        nonlocal f, r, a
        tr = f + a * (ga + (1 - ga) * p_exp(lt, x))
        na = a * (1 - ga) * (1 - p_exp(lt, x))
        f = r * again(p_exp(mu, x), p_exp(l, x), x) + (1 - si) * tr
        r = (1 - p_exp(mu, x)) * r + si * tr
        a = 1 - f - r - (0 if avail else na)

    def run(x):
        nonlocal f, r, a
        f = a * p_exp(l, x) + f + r * again(p_exp(mu, x), p_exp(l, x), x)
        r *= 1 - p_exp(mu, x)
        a = 1 - f - r

    d = t - th
    n = d / tau
    edge(n)
    for _ in range(int(n)):
        test(pi)
        run(tau - pi)
    rest = d - int(n) * tau
    edge((rest - pi) / tau)
    if rest <= pi:
        test(rest, bool(av))
    else:
        test(pi)
        run(rest - pi)
    return 1 - a


def edge(x):
    """A value this close to a discontinuity may legitimately fall on either side."""
    if x != round(x) and abs(x - round(x)) < 1e-7:
        raise Reject()


def apply(op, a, exact, data=None):
    """The value of op on argument values a (all of them evaluated)."""
    def near(x, y):
        if x != y and abs(x - y) < 1e-7 * max(1, abs(x), abs(y)) or (x == y and not exact):
            raise Reject()
    if op == "neg":
        return -a[0]
    if op == "add":
        return math.fsum(a)
    if op == "sub":
        return a[0] - math.fsum(a[1:])
    if op == "mul":
        return math.prod(a)
    if op == "div":
        r = a[0]
        for x in a[1:]:
            r /= x
        return r
    if op == "abs":
        return abs(a[0])
    if op in ("acos", "asin", "atan", "cos", "sin", "tan", "cosh", "sinh", "tanh", "exp", "log", "log10", "sqrt"):
        if op == "tan" and abs(math.cos(a[0])) < 0.02:
            raise Reject()
        if not exact and (op == "sqrt" and a[0] < 1e-5 or op in ("acos", "asin") and abs(a[0]) > 1 - 1e-5 or op in ("log", "log10") and a[0] < 1e-5):
            raise Reject()   # Magnifies rounding.
        return getattr(math, op)(a[0])
    if op == "mod":
        for x in a:
            edge(x)
            if x == round(x) and not exact:
                raise Reject()
        return cmod(*a)
    if op == "pow":
        r = math.pow(*a)
        return r
    if op in ("ceil", "floor"):
        edge(a[0])
        if a[0] == round(a[0]) and not exact:
            raise Reject()
        return float(getattr(math, op)(a[0]))
    if op in ("min", "max"):
        return min(a) if op == "min" else max(a)
    if op == "mean":
        return math.fsum(a) / len(a)
    if op in ("not", "and", "or"):
        for x in a:
            if (abs(x) < 1e-9 and x) or (x == 0 and not exact):
                raise Reject()
        b = [bool(x) for x in a]
        return float(not b[0] if op == "not" else all(b) if op == "and" else any(b))
    if op in ("eq", "df", "lt", "gt", "leq", "geq"):
        near(*a)
        x, y = a
        return float({"eq": x == y, "df": x != y, "lt": x < y, "gt": x > y, "leq": x <= y, "geq": x >= y}[op])
    if op == "exponential":
        return p_exp(*a)
    if op == "GLM":
        g, l, mu, t = a
        r = l + mu
        return l / r - (l / r - g) * math.exp(-r * t)
    if op == "Weibull":
        al, be, t0, t = a
        return 0.0 if t <= t0 else 1 - math.exp(-((t - t0) / al) ** be)
    if op == "periodic-test":
        return periodic(a)
    if op == "uniform-deviate":
        return (a[0] + a[1]) / 2
    if op == "normal-deviate":
        return a[0]
    if op == "lognormal-deviate":
        return a[0] if len(a) == 3 else math.exp(a[0] + a[1] ** 2 / 2)
    if op == "gamma-deviate":
        return a[0] * a[1]
    if op == "beta-deviate":
        return a[0] / (a[0] + a[1])
    if op == "histogram":
        nb, w = data
        b, ws = a[:nb], a[nb:]
        return math.fsum((x + y) / 2 * z for x, y, z in zip(b, b[1:], ws)) / math.fsum(ws)
    raise AssertionError(op)


def isexact(n):
    if n.op in ("int", "bool", "float", "time"):
        return True
    if n.op in ("floor", "ceil", "mod", "not", "and", "or", "eq", "df", "lt", "gt", "leq", "geq"):
        return True
    if n.op in ("add", "sub", "mul", "neg", "min", "max", "abs"):
        return all(a.exact and (a.v == round(a.v) or n.op in ("neg", "min", "max", "abs")) for a in n.args)
    if n.op in ("ite", "switch"):
        return all(a.exact for a in n.args)
    if n.op == "param":
        return n.data[2].exact
    return False


def evaluate(n, look, time):
    """look(param name) gives the value of a parameter."""
    o = n.op
    if o in ("int", "float", "bool"):
        return float(n.data)
    if o == "pi":
        return math.pi
    if o == "time":
        return float(time)
    if o == "param":
        return look(n.data[0])
    if o in ("ite", "switch"):
        cond = lambda x: (truth(x, evaluate(x, look, time)))
        if o == "ite":
            return evaluate(n.args[1] if cond(n.args[0]) else n.args[2], look, time)
        for i in range(0, len(n.args) - 1, 2):
            if cond(n.args[i]):
                return evaluate(n.args[i + 1], look, time)
        return evaluate(n.args[-1], look, time)
    return apply(o, [evaluate(a, look, time) for a in n.args], all(a.exact for a in n.args), n.data)


def truth(node, x):
    if (x and abs(x) < 1e-9) or (x == 0 and not node.exact):
        raise Reject()
    return bool(x)


MONO = {"neg", "abs", "tan", "cosh", "sinh", "tanh", "exp", "log", "log10", "sqrt", "ceil", "floor", "not"}


def raw(op, *a):
    """Endpoint arithmetic: as apply, without the discontinuity guards."""
    if op in ("ceil", "floor"):
        return float(getattr(math, op)(a[0]))
    if op == "mod":
        return cmod(*a)
    if op in ("not", "and", "or"):
        b = [bool(x) for x in a]
        return float(not b[0] if op == "not" else all(b) if op == "and" else any(b))
    if op in ("eq", "df", "lt", "gt", "leq", "geq"):
        x, y = a
        return float({"eq": x == y, "df": x != y, "lt": x < y, "gt": x > y, "leq": x <= y, "geq": x >= y}[op])
    return apply(op, list(a), True)


def interval(n):
    """A domain interval no wider than needed to keep generated models valid by the documented rules."""
    o, a = n.op, n.args
    if o == "time":
        return (0.0, n.v)
    if o == "param":
        return n.data[2].iv
    if o in ("acos",):
        return (0.0, math.pi)
    if o in ("asin", "atan"):
        return (-math.pi / 2, math.pi / 2)
    if o in ("cos", "sin"):
        return (-1.0, 1.0)
    if o in ("exponential", "GLM", "Weibull", "periodic-test"):
        return (0.0, 1.0)
    if o in ("ite",):
        return (min(a[1].iv[0], a[2].iv[0]), max(a[1].iv[1], a[2].iv[1]))
    if o == "switch":
        vs = a[1::2] + [a[-1]] if len(a) > 1 else [a[-1]]
        vs = [a[i] for i in range(1, len(a) - 1, 2)] + [a[-1]]
        return (min(x.iv[0] for x in vs), max(x.iv[1] for x in vs))
    if o == "mean":
        return (sum(x.iv[0] for x in a) / len(a), sum(x.iv[1] for x in a) / len(a))
    if o == "uniform-deviate":
        return (a[0].v, a[1].v)
    if o == "normal-deviate":
        return (a[0].v - 6 * a[1].v, a[0].v + 6 * a[1].v)
    if o == "lognormal-deviate":
        if len(a) == 3:
            from statistics import NormalDist
            s = math.log(a[1].v) / NormalDist().inv_cdf(a[2].v)
            m = math.log(a[0].v) - s * s / 2
        else:
            m, s = a[0].v, a[1].v
        return (0.0, math.exp(3 * s + m))
    if o == "gamma-deviate":
        return (0.0, a[1].v * (a[0].v * 6 + 10))
    if o == "beta-deviate":
        return (0.0, 1.0)
    if o == "histogram":
        return (a[0].v, a[n.data[0] - 1].v)
    if o in MONO:
        lo, hi = n.args[0].iv
        if o in ("abs", "cosh") and lo < 0 < hi:
            return (raw(o, 0.0), max(raw(o, lo), raw(o, hi)))
        if o == "tan" and (hi - lo > 1e-9) and math.floor((lo - math.pi / 2) / math.pi) != math.floor((hi - math.pi / 2) / math.pi):
            raise Reject()
        if o == "not" and lo < 0 < hi:
            return (0.0, 1.0)
        r = sorted((raw(o, lo), raw(o, hi)))
        return tuple(r)
    if not a:
        return (n.v, n.v)
    cur = a[0].iv
    for x in a[1:]:
        if o in ("eq", "df", "and", "or") and (cur[0] < cur[1] or x.iv[0] < x.iv[1]):
            cur = (0.0, 1.0)
            continue
        if o == "mod" and (cur[0] < cur[1] or x.iv[0] < x.iv[1]):
            b = max(abs(x.iv[0]), abs(x.iv[1]))
            cur = (-b if cur[0] < 0 else 0.0, b if cur[1] > 0 else 0.0)
            continue
        if o == "pow" and cur[0] <= 0 and (cur[0] < cur[1] or x.iv[0] < x.iv[1]):
            raise Reject()
        op = o
        c = [raw(op, p, q) for p in cur for q in x.iv]
        cur = (min(c), max(c))
    return cur


class Gen:
    def __init__(self, rng, time, params, deviates=False, nested=False):
        """params: list of (name, unit, Node) usable by reference."""
        self.rng, self.time, self.params, self.deviates, self.nested = rng, float(time), params, deviates, nested
        self.level = 0

    def make(self, op, args=(), data=None):
        n = Node(op, args, data)
        n.exact = False
        if op == "param":
            n.dev = data[2].dev
        try:
            if op == "param":
                n.v = data[2].v
            elif op in ("ite", "switch"):
                if op == "ite":
                    n.v = (args[1] if truth(args[0], args[0].v) else args[2]).v
                else:
                    n.v = args[-1].v
                    for i in range(0, len(args) - 1, 2):
                        if truth(args[i], args[i].v):
                            n.v = args[i + 1].v
                            break
            elif op in ("int", "float", "bool"):
                n.v = float(data)
            elif op == "pi":
                n.v = math.pi
            elif op == "time":
                n.v = self.time
            else:
                self.domain(n)
                n.v = apply(op, [x.v for x in args], all(x.exact for x in args), data)
            if isinstance(n.v, complex) or not (abs(n.v) < BIG or op == "time"):
                raise Reject()
            n.iv = interval(n)
            if not (abs(n.iv[0]) < 1e8 and abs(n.iv[1]) < 1e8):
                raise Reject()
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Reject()
        n.exact = isexact(n)
        return n

    def domain(self, n):
        o, a = n.op, n.args
        pos = lambda x: x.v > 0 and x.iv[0] > 0
        nn = lambda x: x.v >= 0 and x.iv[0] >= 0
        prob = lambda x: 0 <= x.v <= 1 and x.iv[0] >= 0 and x.iv[1] <= 1
        ok = True
        if o == "div":
            ok = all(abs(x.v) > 1e-3 and not (x.iv[0] <= 1e-6 and x.iv[1] >= -1e-6) for x in a[1:])
        elif o in ("acos", "asin"):
            ok = -1 <= a[0].iv[0] and a[0].iv[1] <= 1 and -1 <= a[0].v <= 1
        elif o in ("log", "log10"):
            ok = pos(a[0])
        elif o == "sqrt":
            ok = nn(a[0])
        elif o in ("cosh", "sinh", "exp", "tan"):
            ok = max(abs(a[0].iv[0]), abs(a[0].iv[1])) < 9
        elif o == "mod":
            lo, hi = a[1].iv
            ok = cint(a[1].v) != 0 and int(lo) != 0 and int(hi) != 0 and not (int(lo) < 0 < int(hi))
        elif o == "pow":
            b, e = a
            ok = max(abs(e.iv[0]), abs(e.iv[1])) < 6 and max(abs(b.iv[0]), abs(b.iv[1])) < 50
            if b.iv[0] <= 0:
                ok = ok and b.iv[0] == b.iv[1] and e.iv[0] == e.iv[1] and e.exact and e.v == round(e.v) and (b.v != 0 or e.v > 0)
            elif e.iv[0] < 0:
                ok = ok and b.iv[0] > 0.01
        elif o == "exponential":
            ok = nn(a[0]) and nn(a[1])
        elif o == "GLM":
            ok = prob(a[0]) and pos(a[1]) and nn(a[2]) and nn(a[3])
        elif o == "Weibull":
            ok = pos(a[0]) and pos(a[1]) and nn(a[2]) and nn(a[3])
        elif o == "periodic-test":
            if len(a) == 4:
                ok = pos(a[0]) and pos(a[1]) and nn(a[2]) and nn(a[3])
            elif len(a) == 5:
                ok = pos(a[0]) and nn(a[1]) and pos(a[2]) and nn(a[3]) and nn(a[4])
            else:
                ok = pos(a[0]) and nn(a[1]) and nn(a[2]) and pos(a[3]) and nn(a[4]) and prob(a[5]) and pos(a[6]) and prob(a[8]) and prob(a[9]) and nn(a[10])
                ok = ok and a[6].v <= a[3].v and a[6].iv[1] <= a[3].iv[0]
            d = a[-1].iv[1] / max(1e-12, a[1 if len(a) == 4 else 2 if len(a) == 5 else 3].iv[0])
            ok = ok and (d < 3000 or len(a) == 4)
        if not ok:
            raise Reject()

    def const(self):
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return self.make("int", (), rng.choice([0, 1, 2, 3, -1, -2, 5, 10, rng.randint(-100, 100)]))
        if r < 0.85:
            return self.make("float", (), rng.choice([0.5, 0.25, -0.5, 1.5, rng.uniform(-3, 3), rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(-100, 100), float("%.2e" % rng.uniform(-1, 1))]))
        if r < 0.93:
            return self.make("bool", (), rng.random() < 0.5)
        return self.make("pi")

    def leaf(self):
        rng = self.rng
        if self.params and rng.random() < 0.45:
            name, unit, node = rng.choice(self.params)
            return self.make("param", (), (name, unit if rng.random() < 0.5 else None, node))
        if rng.random() < 0.06:
            return self.make("time")
        return self.const()

    def num(self, lo, hi):
        """A (possibly composite) expression within [lo, hi]."""
        rng = self.rng
        if self.level == 0 and rng.random() < 0.25:
            for _ in range(3):
                self.level += 1
                try:
                    e = self.gen(2)
                finally:
                    self.level -= 1
                if lo <= e.v <= hi and lo <= e.iv[0] and e.iv[1] <= hi and (lo != 0 or e.iv[0] > 0 or rng.random() < 0.3):
                    return e
        if rng.random() < 0.2:
            x = rng.uniform(lo, hi)
            k = rng.uniform(0.3, 3)
            f1, f2 = self.make("float", (), x / k), self.make("float", (), k)
            e = self.make("mul", [f1, f2])
            if lo <= e.v <= hi:
                return e
        if self.nested and rng.random() < 0.3:
            w = (hi - lo) * rng.uniform(0.1, 0.9)
            a = rng.uniform(lo, hi - w)
            return self.make("uniform-deviate", [self.make("float", (), a), self.make("float", (), a + w)])
        return self.make("float", (), rng.uniform(lo, hi))

    def when(self):
        rng = self.rng
        r = rng.random()
        if r < 0.6:
            return self.make("time")
        if r < 0.8:
            return self.make("float", (), rng.uniform(0, 1.5) * (self.time or 10))
        if r < 0.9:
            return self.make("mul", [self.make("time"), self.make("float", (), rng.uniform(0, 1))])
        return self.make("int", (), rng.randint(0, 5000))

    def law(self):
        rng = self.rng
        T = self.time or 100.0
        rate = lambda: self.num(0, 3 / T) if rng.random() < 0.9 else self.make("float", (), rng.choice([1e-12, 1e-6, 5 / T, 40 / T, 0.0, 1e-17]))
        prate = lambda: self.num(1e-3 / T, 3 / T) if rng.random() < 0.9 else self.make("float", (), rng.choice([1e-18, 1e-12, 20 / T, 100 / T]))
        k = rng.randrange(6)
        if k == 0:
            return self.make("exponential", [rate(), self.when()])
        if k == 1:
            return self.make("GLM", [self.num(0, 1), prate(), rate(), self.when()])
        if k == 2:
            return self.make("Weibull", [self.num(0.1 * T, 3 * T), self.num(0.3, 4), self.num(0, 0.5 * T) if rng.random() < 0.6 else self.make("int", (), 0), self.when()])
        tau = self.num(T / 40, 0.9 * T) if rng.random() < 0.7 else self.make("float", (), T / rng.choice([1, 2, 4, 8]))
        theta = self.num(0, 0.8 * T) if rng.random() < 0.7 else self.make("float", (), rng.choice([0.0, T / 2, T, T / 4]))
        if k == 3:
            if rng.random() < 0.04:
                tau = self.make("float", (), 10 ** rng.uniform(-9, -6) * T)
            return self.make("periodic-test", [prate(), tau, theta, self.when()])
        lam = prate()
        mu = self.num(0.1 / T, 30 / T) if rng.random() < 0.85 else self.make("float", (), rng.choice([0.0, 1e-9, 300 / T, 1e4 / T]))
        if not mu.dev and not lam.dev and abs(mu.v - lam.v) < 0.02 * max(mu.v, lam.v):
            raise Reject()   # Cancellation in the closed form.
        if rng.random() < 0.1 and not lam.dev:
            mu = lam
        if (lam.dev or mu.dev) and mu is not lam and lam.iv[0] <= mu.iv[1] and mu.iv[0] <= lam.iv[1]:
            raise Reject()
        if k == 4:
            if lam is mu and lam.dev:
                raise Reject()
            return self.make("periodic-test", [lam, mu, tau, theta, self.when()])
        if tau.dev:
            raise Reject()
        edge01 = lambda a, b: self.num(a, b) if rng.random() < 0.75 else self.make("float", (), float(rng.randrange(2)))
        return self.make("periodic-test", [lam, rate(), mu, tau, theta, edge01(0, 0.3), self.make("float", (), tau.v * rng.choice([1 if tau.op == "float" else 0.999, rng.uniform(0.01, 0.9)])),
                                           self.make("bool", (), rng.random() < 0.5), edge01(0.3, 1), edge01(0, 0.4), self.when()])

    def deviate(self):
        rng = self.rng
        k = rng.randrange(7)
        f = self.num
        if k == 0:
            a = f(-3, 3) if rng.random() < 0.5 else f(0, 0.5)
            b = self.make("add", [self.make("float", (), a.v), self.make("float", (), rng.uniform(0.01, 2))]) if rng.random() < 0.3 else self.make("float", (), a.v + rng.uniform(0.01, 2))
            return self.make("uniform-deviate", [a, b])
        if k == 1:
            return self.make("normal-deviate", [f(-3, 3), f(0.01, 2)])
        if k == 2:
            return self.make("lognormal-deviate", [f(0.01, 1), f(1.1, 5), self.make("float", (), rng.choice([0.95, 0.9, 0.99, rng.uniform(0.7, 0.99)]))])
        if k == 3:
            return self.make("lognormal-deviate", [f(-3, 1), f(0.05, 1)])
        if k == 4:
            return self.make("gamma-deviate", [f(0.3, 6), f(0.01, 2)])
        if k == 5:
            return self.make("beta-deviate", [f(0.4, 6), f(0.4, 20)])
        n = rng.randint(1, 4)
        x = rng.uniform(-1, 1) if rng.random() < 0.5 else 0.0
        bs = []
        for _ in range(n + 1):
            bs.append(self.make("float", (), x))
            x += rng.uniform(0.05, 1)
        ws = [f(0.1, 5) if rng.random() < 0.9 else self.make("float", (), 0.0 if i else 1.0) for i in range(n)]
        return self.make("histogram", bs + ws, (n + 1, n))

    def gen(self, depth):
        rng = self.rng
        if depth <= 0 or rng.random() < 0.08:
            return self.leaf()
        for _ in range(8):
            try:
                if rng.random() < 0.2:
                    return self.law()
                if self.deviates and rng.random() < 0.15:
                    return self.deviate()
                op = rng.choice(OPS)
                n = ARITY[op]
                if n == 0:
                    n = rng.randint(2, 4)
                if op == "switch":
                    n = 2 * rng.randint(0, 3) + 1
                args = [self.gen(depth - 1) for _ in range(n)]
                if op in ("ite", "switch") and n > 1 and rng.random() < 0.6:
                    for i in range(0, n - 1, 2):
                        args[i] = self.make(rng.choice(["lt", "gt", "leq", "geq", "eq", "df", "and", "or"]), [self.gen(1), self.gen(1)])
                return self.make(op, args)
            except Reject:
                continue
        return self.leaf()


ARITY = {"neg": 1, "add": 0, "sub": 0, "mul": 0, "div": 0, "abs": 1, "acos": 1, "asin": 1, "atan": 1, "cos": 1, "sin": 1, "tan": 1, "cosh": 1,
         "sinh": 1, "tanh": 1, "exp": 1, "log": 1, "log10": 1, "mod": 2, "pow": 2, "sqrt": 1, "ceil": 1, "floor": 1, "min": 0, "max": 0, "mean": 0,
         "not": 1, "and": 0, "or": 0, "eq": 2, "df": 2, "lt": 2, "gt": 2, "leq": 2, "geq": 2, "ite": 3, "switch": 1}
OPS = sorted(ARITY)
ALL_OPS = set(OPS) | {"exponential", "GLM", "Weibull", "periodic-test4", "periodic-test5", "periodic-test11", "int", "float", "bool", "pi", "time", "param"}
