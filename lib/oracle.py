"""Independent reference semantics: Boolean functions as big-integer truth tables."""
import functools
import numpy as np


@functools.lru_cache(None)
def var_mask(i, n):
    """Truth table of variable i over n variables (bit x is set iff x has bit i)."""
    blk = ((1 << (1 << i)) - 1) << (1 << i)
    w = 1 << (i + 1)
    m = blk
    size = w
    total = 1 << n
    while size < total:
        m |= m << size
        size *= 2
    return m


@functools.lru_cache(None)
def full(n):
    return (1 << (1 << n)) - 1


def combine(op, vals, n, k=None, k2=None):
    F = full(n)
    if op == "and":
        r = F
        for v in vals:
            r &= v
        return r
    if op == "or":
        r = 0
        for v in vals:
            r |= v
        return r
    if op == "nand":
        return F ^ combine("and", vals, n)
    if op == "nor":
        return F ^ combine("or", vals, n)
    if op == "not":
        return F ^ vals[0]
    if op == "null":
        return vals[0]
    if op == "xor":
        return vals[0] ^ vals[1]
    if op == "iff":
        return F ^ vals[0] ^ vals[1]
    if op == "imply":
        return (F ^ vals[0]) | vals[1]
    if op == "atleast":
        return at_least(vals, k, n)
    if op == "cardinality":
        return at_least(vals, k, n) & (F ^ at_least(vals, k2 + 1, n))
    raise ValueError(op)


def at_least(vals, k, n):
    F = full(n)
    if k <= 0:
        return F
    c = [F] + [0] * k   # c[j]: at least j so far
    for v in vals:
        for j in range(k, 0, -1):
            c[j] |= c[j - 1] & v
    return c[k]


class Fn:
    """A Boolean function over named variables."""
    __slots__ = ("vars", "n", "t")

    def __init__(self, vars, t):
        self.vars, self.n, self.t = list(vars), len(vars), t


def eval_gates(gates, houses, vars, tops=None, subst=None):
    """Truth tables of all gates; subst overrides basic events with tables."""
    n = len(vars)
    F = full(n)
    idx = {v: i for i, v in enumerate(vars)}
    val = {}

    def arg(a):
        neg, kind, name = a
        if kind == "b":
            if subst and name in subst:
                v = subst[name]
            else:
                v = var_mask(idx[name], n)
        elif kind == "h":
            v = F if houses[name] else 0
        elif kind == "c":
            v = F if name else 0
        else:
            v = val[name]
        return F ^ v if neg else v
    order = []
    state = {}
    for root in (tops or gates):
        stack = [(root, 0)]
        while stack:
            g, ph = stack.pop()
            if ph == 0:
                if g in state:
                    continue
                state[g] = 1
                stack.append((g, 1))
                for a in gates[g].args:
                    if a[1] == "g" and a[2] not in state:
                        stack.append((a[2], 0))
            else:
                order.append(g)
    # Post-order of an iterative DFS over a DAG may visit a shared child late: resolve lazily.
    def get(g):
        if g in val:
            return val[g]
        for a in gates[g].args:
            if a[1] == "g":
                get(a[2])
        q = gates[g]
        val[g] = combine(q.op, [arg(a) for a in q.args], n, q.k, q.k2)
        return val[g]
    for g in order:
        get(g)
    return val


def mcs(t, n):
    """Minimal elements of the true points: list of bit masks."""
    if t == 0:
        return []
    F = full(n)
    up = t
    for i in range(n):
        m = var_mask(i, n)
        up |= (up & (F ^ m)) << (1 << i)
    non = 0
    for i in range(n):
        m = var_mask(i, n)
        non |= (up & (F ^ m)) << (1 << i)
    return bits(up & (F ^ non))


def bits(x):
    out = []
    while x:
        low = x & -x
        out.append(low.bit_length() - 1)
        x ^= low
    return out


def bits_fast(x, n):
    return np.nonzero(to_array(x, n))[0].tolist()


def to_array(t, n):
    size = 1 << n
    if n < 3:
        return np.array([(t >> i) & 1 for i in range(size)], dtype=bool)
    raw = np.frombuffer(t.to_bytes(size // 8, "little"), dtype=np.uint8)
    return np.unpackbits(raw, bitorder="little").astype(bool)


def primes(t, n):
    """All prime implicants as sets of (neg, var index)."""
    F = full(n)
    # fa[D]: for all assignments of the variables in D.
    fa = {0: t}
    out = []
    for D in range(1 << n):
        if D:
            low = (D & -D).bit_length() - 1
            base = fa[D & (D - 1)]
            m = var_mask(low, n)
            hi = base & m
            lo = base & (F ^ m)
            fa[D] = (hi & (lo << (1 << low))) | ((hi >> (1 << low)) & lo)
    for D in range(1 << n):
        cur = fa[D]
        if not cur:
            continue
        for i in range(n):
            if not D >> i & 1:
                cur &= F ^ fa[D | 1 << i]
        # One representative per cube: dropped variables at zero.
        for i in range(n):
            if D >> i & 1:
                cur &= F ^ var_mask(i, n)
        for x in bits(cur):
            out.append(frozenset((not (x >> i & 1), i) for i in range(n) if not D >> i & 1))
    return out


def weights(ps):
    w = np.ones(1)
    for p in ps:   # variable i is bit i: later variables are higher bits
        w = np.concatenate([w * (1.0 - p), w * p])
    return w


def probability(t, n, ps):
    return float(weights(ps)[to_array(t, n)].sum())


def cofactors(t, i, n):
    """(f with var i true, f with var i false), still over n variables."""
    F = full(n)
    m = var_mask(i, n)
    s = 1 << i
    hi = t & m
    lo = t & (F ^ m)
    return hi | (hi >> s), lo | (lo << s)


def close(a, b, rel=2e-5, abs_=1e-300):
    if a == b:
        return True
    if a != a or b != b:
        return (a != a) and (b != b)
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))
