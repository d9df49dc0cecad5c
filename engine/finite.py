"""Pointwise evaluation of values over the product of the (finite) domains of their unknowns."""
import numpy as np

LIMIT = 1 << 23


def domain(st, s):
    m = st.dom[s]
    out = []
    k = 0
    while m:
        if m & 1:
            out.append(k)
        m >>= 1
        k += 1
    return out


def pointwise(st, syms, vals, limit=LIMIT):
    """arrays (one per value) broadcastable over the product of the domains, or None if it is too large"""
    n = 1
    doms = []
    for s in syms:
        d = domain(st, s)
        doms.append(d)
        n *= max(1, len(d))
    if n > limit:
        return None
    env = {}
    for i, (s, d) in enumerate(zip(syms, doms)):
        shape = [1] * len(syms)
        shape[i] = len(d)
        env[s] = np.array(d, dtype=np.int64).reshape(shape)
    memo = {}
    return [ev(v, env, memo) for v in vals]


def refuted(st, c, syms_of, universe, n=1 << 20):
    """some values of the unknowns, among those the facts allow, for which the condition does not hold (searched among
    evenly drawn combinations, when there are too many to go through them all)"""
    ss = set(syms_of(c))
    while True:
        cons = [(f, v) for f, v in st.facts.items() if f != c and f[0] == "X" and syms_of(f) & ss
                and not any(universe(s) is None for s in syms_of(f))]
        more = set().union(ss, *[syms_of(f) for f, _ in cons])
        if more == ss:
            break
        ss = more
    rng = np.random.default_rng(1)
    env = {s: rng.choice(np.array(domain(st, s), dtype=np.int64), n) for s in sorted(ss)}
    memo = {}
    ok = (ev(c, env, memo) & 1) == 0
    for f, v in cons:
        ok = ok & ((ev(f, env, memo) & 1) == (1 if v else 0))
    return bool(np.any(ok))


def signed(a, w):
    if w >= 64:
        return a
    a = a & ((1 << w) - 1)
    return np.where(a >> (w - 1) & 1, a - (1 << w), a)


def mask(a, w):
    return a if w >= 64 else a & ((1 << w) - 1)


def ev(v, env, memo):
    if type(v) is int:
        return np.int64(v if v < (1 << 63) else v - (1 << 64))
    if v in memo:
        return memo[v]
    r = _ev(v, env, memo)
    memo[v] = r
    return r


def _ev(v, env, memo):
    k = v[0]
    if k == "T":
        t = np.array([x if x < (1 << 63) else x - (1 << 64) for x in v[2]], dtype=np.int64)
        return t[env[v[1]]]
    if k == "X":
        op = v[1]
        if op == "icmp":
            _, _, pred, a, b, w, _ = v
            x, y = ev(a, env, memo), ev(b, env, memo)
            if pred[0] == "s":
                x, y = signed(x, w), signed(y, w)
            else:
                x, y = mask(x, w), mask(y, w)
            p = pred[-2:] if pred not in ("eq", "ne") else pred
            r = {"eq": lambda: x == y, "ne": lambda: x != y, "lt": lambda: x < y, "le": lambda: x <= y, "gt": lambda: x > y, "ge": lambda: x >= y}[p]()
            return np.asarray(r).astype(np.int64)
        if op == "not":
            return 1 - (ev(v[2], env, memo) & 1)
        if op == "zext":
            return ev(v[2], env, memo)
        if op == "sext":
            from .vals import width
            return mask(signed(ev(v[2], env, memo), width(v[2])), v[3])
        if op == "trunc":
            return mask(ev(v[2], env, memo), v[3])
        if op == "lookup":
            t = np.frombuffer(v[2], dtype=np.uint8).astype(np.int64)
            return t[ev(v[3], env, memo)]
        w = v[-1]
        if len(v) == 5:
            a, b = ev(v[2], env, memo), ev(v[3], env, memo)
            if op == "add":
                return mask(a + b, w)
            if op == "sub":
                return mask(a - b, w)
            if op == "mul":
                return mask(a * b, w)
            if op == "and":
                return a & b
            if op == "or":
                return a | b
            if op == "xor":
                return a ^ b
            if op == "shl":
                return mask(a << b, w)
            if op == "lshr":
                return mask(a, w) >> b
            if op == "ashr":
                return mask(signed(a, w) >> b, w)
            if op == "urem":
                return np.where(b != 0, mask(a, w) % np.where(b == 0, 1, b), 0)
            if op == "udiv":
                return np.where(b != 0, mask(a, w) // np.where(b == 0, 1, b), 0)
    from .interp import Unmodelled
    raise Unmodelled("pointwise evaluation of %r" % (v[:2],))
