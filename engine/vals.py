"""Abstract values.

  int                       constant (unsigned, masked to its width)
  ('T', sym, table, w)      pointwise table over one finite unknown (a byte, a token code, a flag)
  ('L', terms, const, w)    linear form over wide unknowns; terms = ((sym, coef), ...) sorted
  ('X', op, a, b, w, ...)   anything else over unknowns (kept for identity and for finite evaluation)
  ('P', obj, off)           pointer; off is an int or an 'L' value
  ('Q', sym, ptr)           pointer that is null when the flag sym is 0
  ('F', name)               function
  ('A', (v, ...))           aggregate
  ('S', pieces)             std::string contents
  ('D', bits)               floating point constant (IEEE double bits)
  ('U',)                    undefined
  ('?', tag)                unknown

pieces of a string:
  ('k', bytes)              constant bytes
  ('b', value)              one byte
  ('t', seq, s, e)          elements s..e-1 of the byte sequence seq
  ('v', name, ...)          symbolic content
"""

SYMS = []     # (name, universe or None, meta)


def new_sym(name, universe=None, meta=None):
    SYMS.append((name, universe, meta))
    return len(SYMS) - 1


def universe(s):
    return SYMS[s][1]


def symname(s):
    return SYMS[s][0]


IDENT = {}


def fin(sym, w=8):
    n = universe(sym)
    return ("T", sym, tuple(range(n)), w)


def lin(sym, w=64):
    return ("L", ((sym, 1),), 0, w)


def is_int(v):
    return type(v) is int


def mk(w, x):
    return x & ((1 << w) - 1)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) & 1 else x


def width(v, default=64):
    if type(v) is tuple:
        if v[0] == "T":
            return v[3]
        if v[0] == "L":
            return v[3]
        if v[0] == "X":
            return v[-1]
    return default


def mktab(sym, table, w):
    first = table[0]
    for x in table:
        if x != first:
            return ("T", sym, table, w)
    return first


def mklin(terms, const, w):
    t = tuple(sorted((s, c) for s, c in terms.items() if c != 0)) if type(terms) is dict else terms
    if not t:
        return mk(w, const)
    return ("L", t, const, w)


def lin_parts(v, w):
    """(terms dict, const) of an int or 'L' value, else None. Constants are taken as signed."""
    if type(v) is int:
        return {}, sgn(mk(w, v), w)
    if type(v) is tuple and v[0] == "L":
        return dict(v[1]), v[2]
    return None


def lin_add(a, b, w, sign=1):
    pa, pb = lin_parts(a, w), lin_parts(b, w)
    if pa is None or pb is None:
        return None
    t = dict(pa[0])
    for s, c in pb[0].items():
        t[s] = t.get(s, 0) + sign * c
    return mklin(t, pa[1] + sign * pb[1], w)


def lin_scale(a, k, w):
    pa = lin_parts(a, w)
    if pa is None:
        return None
    return mklin({s: c * k for s, c in pa[0].items()}, pa[1] * k, w)


def ops_int(op, a, b, w):
    M = (1 << w) - 1
    if op == "add":
        return (a + b) & M
    if op == "sub":
        return (a - b) & M
    if op == "mul":
        return (a * b) & M
    if op == "and":
        return a & b
    if op == "or":
        return a | b
    if op == "xor":
        return a ^ b
    if op == "shl":
        return (a << b) & M if b < w else 0
    if op == "lshr":
        return a >> b if b < w else 0
    if op == "ashr":
        return (sgn(a, w) >> min(b, w - 1)) & M
    if op == "udiv":
        return a // b if b else 0
    if op == "urem":
        return a % b if b else 0
    if op in ("sdiv", "srem"):
        x, y = sgn(a, w), sgn(b, w)
        if y == 0:
            return 0
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        return (q if op == "sdiv" else x - q * y) & M
    raise NotImplementedError(op)


PRED = {
    "eq": lambda a, b, w: a == b, "ne": lambda a, b, w: a != b,
    "ult": lambda a, b, w: a < b, "ule": lambda a, b, w: a <= b,
    "ugt": lambda a, b, w: a > b, "uge": lambda a, b, w: a >= b,
    "slt": lambda a, b, w: sgn(a, w) < sgn(b, w), "sle": lambda a, b, w: sgn(a, w) <= sgn(b, w),
    "sgt": lambda a, b, w: sgn(a, w) > sgn(b, w), "sge": lambda a, b, w: sgn(a, w) >= sgn(b, w),
}
NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
SWAPP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}

_bincache = {}


def is_top(v):
    return type(v) is tuple and v[0] in ("?", "U")


def binop(op, a, b, w):
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return ops_int(op, a, b, w)
    if ta is tuple and a[0] == "X" and a[1] == "zcat":   # nothing special
        pass
    key = (op, a, b, w)
    r = _bincache.get(key)
    if r is not None:
        return r
    r = _binop(op, a, b, w)
    _bincache[key] = r
    return r


def _binop(op, a, b, w):
    if is_top(a) or is_top(b):
        return ("?", "arith")
    at, bt = (a[0] if type(a) is tuple else "i"), (b[0] if type(b) is tuple else "i")
    if at == "T" and bt == "i":
        return mktab(a[1], tuple(ops_int(op, x, b, w) for x in a[2]), w)
    if at == "i" and bt == "T":
        return mktab(b[1], tuple(ops_int(op, a, x, w) for x in b[2]), w)
    if at == "T" and bt == "T" and a[1] == b[1]:
        return mktab(a[1], tuple(ops_int(op, x, y, w) for x, y in zip(a[2], b[2])), w)
    if at in "iL" and bt in "iL":
        if op == "add":
            return lin_add(a, b, w)
        if op == "sub":
            return lin_add(a, b, w, -1)
        if op == "mul" and bt == "i":
            return lin_scale(a, sgn(b, w), w)
        if op == "mul" and at == "i":
            return lin_scale(b, sgn(a, w), w)
        if op == "shl" and bt == "i" and b < w:
            return lin_scale(a, 1 << b, w)
        if op in ("sdiv", "udiv") and bt == "i" and b:
            d = sgn(b, w)
            t, c = lin_parts(a, w)
            if all(k % d == 0 for k in t.values()) and c % d == 0:
                return mklin({s: k // d for s, k in t.items()}, c // d, w)
        if op in ("ashr", "lshr") and bt == "i" and b < w:
            d = 1 << b
            t, c = lin_parts(a, w)
            if all(k % d == 0 for k in t.values()) and c % d == 0:
                return mklin({s: k // d for s, k in t.items()}, c // d, w)
    if op in ("add", "or", "xor", "sub", "shl", "lshr", "ashr") and bt == "i" and b == 0:
        return a
    if op in ("add", "or", "xor") and at == "i" and a == 0:
        return b
    if op == "mul" and bt == "i" and b == 1:
        return a
    if op == "and" and bt == "i":
        if b == 0:
            return 0
        if b == (1 << w) - 1:
            return a
        # and(sext/zext(x), mask) within the low bits
        if at == "X" and a[1] in ("sext", "zext"):
            fw = width(a[2])
            if b == (1 << fw) - 1:
                return cast("zext", a[2], fw, w)
    if bt == "i" and at == "X" and op in ("and", "shl", "lshr") and a[1] in ("or", "xor") and len(a) == 5 and (op == "and" or b < w):
        # bit by bit: the parts are dealt with one by one
        return binop(a[1], binop(op, a[2], b, w), binop(op, a[3], b, w), w)
    if bt == "i" and at == "X" and op in ("and", "lshr"):
        mb = bits_of(a, w)
        if (mb & b if op == "and" else mb >> b) == 0:
            return 0
        if op == "and" and mb & ~b == 0:
            return a
    if op == "add" and at in "XT" and bt in "XTi" and not bits_of(a, w) & bits_of(b, w):
        op = "or"
    if op in ("or", "xor") and w > 1:
        parts, tabs, k = [], {}, 0
        todo = [a, b]
        while todo:
            v = todo.pop()
            if type(v) is tuple and v[0] == "X" and v[1] == op and len(v) == 5:
                todo += v[2:4]
            elif type(v) is tuple and v[0] == "T":
                tabs[v[1]] = binop(op, tabs[v[1]], v, w) if v[1] in tabs else v
            elif type(v) is int:
                k = ops_int(op, k, v, w)
            else:
                parts.append(v)
        for v in tabs.values():
            if type(v) is int:
                k = ops_int(op, k, v, w)
            else:
                parts.append(v)
        parts.sort(key=repr)
        if k:
            t = [i for i, v in enumerate(parts) if v[0] == "T"]
            if t:
                v = binop(op, parts[t[0]], k, w)
                if type(v) is int:
                    parts[t[0]:t[0] + 1] = []
                    return binop(op, combine(op, parts, w), v, w)
                parts[t[0]] = v
            else:
                parts.append(k)
        return combine(op, parts, w)
    if op in ("add", "mul", "and", "or", "xor") and repr(a) > repr(b):
        a, b = b, a
    return ("X", op, a, b, w)


def combine(op, parts, w):
    if not parts:
        return 0
    r = parts[0]
    for x in parts[1:]:
        r = ("X", op, r, x, w)
    return r


def bits_of(v, w):
    """the bits that can be set in a value"""
    full = (1 << w) - 1
    if type(v) is int:
        return v & full
    if v[0] == "T":
        r = 0
        for x in v[2]:
            r |= x
        return r & full
    if v[0] == "X":
        if v[1] in ("or", "xor") and len(v) == 5:
            return bits_of(v[2], w) | bits_of(v[3], w)
        if v[1] == "and" and len(v) == 5:
            return bits_of(v[2], w) & bits_of(v[3], w)
        if v[1] == "zext":
            return bits_of(v[2], width(v[2]))
        if v[1] == "lshr" and len(v) == 5 and type(v[3]) is int:
            return bits_of(v[2], w) >> v[3]
        if v[1] == "shl" and len(v) == 5 and type(v[3]) is int:
            return bits_of(v[2], w) << v[3] & full
        if v[1] == "lookup":
            r = 0
            for x in v[2]:
                r |= x
            return r
    return full


def icmp(pred, a, b, w):
    """comparison of integers; the result is an i1 value"""
    ta, tb = type(a), type(b)
    if ta is int and tb is int:
        return 1 if PRED[pred](a, b, w) else 0
    key = (pred, a, b, w)
    r = _bincache.get(key)
    if r is None:
        r = _icmp(pred, a, b, w)
        _bincache[key] = r
    return r


def _icmp(pred, a, b, w):
    if is_top(a) or is_top(b):
        return ("?", "cmp")
    f = PRED[pred]
    at, bt = (a[0] if type(a) is tuple else "i"), (b[0] if type(b) is tuple else "i")
    if at == "T" and bt == "i":
        return mktab(a[1], tuple(int(f(x, b, w)) for x in a[2]), 1)
    if at == "i" and bt == "T":
        return mktab(b[1], tuple(int(f(a, x, w)) for x in b[2]), 1)
    if at == "T" and bt == "T" and a[1] == b[1]:
        return mktab(a[1], tuple(int(f(x, y, w)) for x, y in zip(a[2], b[2])), 1)
    if a == b:
        return 1 if pred in ("eq", "ule", "uge", "sle", "sge") else 0
    if at == "i":
        return icmp(SWAPP[pred], b, a, w)
    if pred == "ne":
        return negate(icmp("eq", a, b, w))
    if pred == "uge" or pred == "sge":
        return negate(icmp({"uge": "ult", "sge": "slt"}[pred], a, b, w))
    if pred == "ugt" or pred == "sgt":
        return negate(icmp({"ugt": "ule", "sgt": "sle"}[pred], a, b, w))
    if pred == "eq" and bt != "i" and repr(a) > repr(b):
        a, b = b, a
    return ("X", "icmp", pred, a, b, w, 1)


def negate(c):
    if type(c) is int:
        return 1 - (c & 1)
    if c[0] == "T":
        return ("T", c[1], tuple(1 - (x & 1) for x in c[2]), 1)
    if c[0] == "X" and c[1] == "not":
        return c[2]
    if c[0] in ("?", "U"):
        return c
    return ("X", "not", c, 1)


def cast(op, v, fw, tw):
    if type(v) is int:
        if op == "zext" or op == "trunc":
            return mk(tw, v)
        if op == "sext":
            return mk(tw, sgn(mk(fw, v), fw))
    if is_top(v):
        return v
    if v[0] == "T":
        if op == "sext":
            return mktab(v[1], tuple(mk(tw, sgn(x, fw)) for x in v[2]), tw)
        return mktab(v[1], tuple(mk(tw, x) for x in v[2]), tw)
    if v[0] == "L":
        # linear forms are mathematical integers; the analysis assumes that widening does not wrap
        return ("L", v[1], v[2], tw)
    if v[0] == "X":
        if op == "trunc":
            if v[1] in ("zext", "sext"):
                iw = width(v[2])
                if iw == tw:
                    return v[2]
                if iw > tw:
                    return cast("trunc", v[2], iw, tw)
                return cast(v[1], v[2], iw, tw)
            if v[1] == "trunc":
                return cast("trunc", v[2], width(v[2]), tw)
        if op in ("trunc", "zext") and v[1] in ("or", "xor", "and") and len(v) == 5 and fw > 1 and tw > 1:
            return binop(v[1], cast(op, v[2], fw, tw), cast(op, v[3], fw, tw), tw)
        if op in ("zext", "sext") and v[1] == op:
            return cast(op, v[2], width(v[2]), tw)
        if op == "sext" and v[1] == "zext" and width(v[2]) < fw:
            return cast("zext", v[2], width(v[2]), tw)
    return ("X", op, v, tw)


def syms_of(v, out=None):
    if out is None:
        out = set()
    if type(v) is tuple and v:
        k = v[0]
        if k == "T":
            out.add(v[1])
        elif k == "L":
            for s, _ in v[1]:
                out.add(s)
        elif k == "Q":
            out.add(v[1])
            syms_of(v[2], out)
        elif k == "S":
            for p in v[1]:
                if p[0] != "k":
                    for x in p[1:]:
                        syms_of(x, out)
        elif k in ("U", "?", "F", "D", "k"):
            pass
        else:
            for x in v[1:]:
                if type(x) is tuple:
                    syms_of(x, out)
    return out


def map_syms(v, f):
    """rewrites the leaves of a value; f(v) returns a replacement for 'T' and 'L' leaves"""
    if type(v) is not tuple or not v:
        return v
    k = v[0]
    if k in ("T", "L"):
        return f(v)
    if k in ("U", "?", "F", "D", "k"):
        return v
    n = tuple(map_syms(x, f) if type(x) is tuple else x for x in v)
    return n


# ---- strings

def s_const(b):
    return ("S", (("k", b),) if b else ())


def s_flat(pieces):
    """merges adjacent constant pieces and contiguous text pieces"""
    out = []
    for p in pieces:
        if p[0] == "k" and not p[1]:
            continue
        if p[0] == "t" and p[2] == p[3]:
            continue
        if out and p[0] == "t" and out[-1][0] == "t" and out[-1][1] == p[1] and out[-1][3] == p[2]:
            out[-1] = ("t", p[1], out[-1][2], p[3])
            continue
        if out and p[0] == "k" and out[-1][0] == "k":
            out[-1] = ("k", out[-1][1] + p[1])
            continue
        out.append(p)
    return tuple(out)


def s_canon(v):
    """canonical form to compare two strings: constant single bytes become constants"""
    ps = []
    for p in v[1]:
        if p[0] == "b" and type(p[1]) is int:
            p = ("k", bytes([p[1] & 255]))
        ps.append(p)
    return ("S", s_flat(ps))


def s_cat(*vs):
    ps = []
    for v in vs:
        if v[0] != "S":
            return ("?", "string")
        ps += v[1]
    return ("S", s_flat(ps))


def s_bytes(v):
    """bytes of a constant string, or None"""
    if type(v) is not tuple or v[0] != "S":
        return None
    v = s_canon(v)
    if not v[1]:
        return b""
    if len(v[1]) == 1 and v[1][0][0] == "k":
        return v[1][0][1]
    return None


# ---- domains of wide unknowns: (lo, hi, mod, res); None is infinite

def d_norm(d):
    lo, hi, m, r = d
    if m > 1:
        if lo is not None:
            lo += (r - lo) % m
        if hi is not None:
            hi -= (hi - r) % m
    if lo is not None and hi is not None and lo > hi:
        return None
    return (lo, hi, m, r % m if m else 0)
