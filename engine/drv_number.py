"""Numbers: the text of a JSON number into a value of a C++ type, and back.

string_to_number<T> and number_to_string<T> are interpreted on an unknown number. What is known about it is a region: an
interval of integers (a text without fraction and exponent) or of doubles (any other text; what strtod makes of it), whether
it is integral, and the shape of the text (sign, fraction, exponent). A comparison that a region does not decide splits the
region at the constant that it is compared with, and each part is analysed from the start. Values are kept as
'the number + a bounded difference', so that what is stored at the end is the number itself or it is not."""
import math
import re
from fractions import Fraction as Q
import numpy as np
from .explore import *
from .drv_codec import NUMBERS
from .models import MODELS, getS, setS, cstr, s_len, fmt_print, num_piece, s_bytes, split_args
from . import models
from .vals import *

NM = []
LIMITS = {"int": (32, 1), "unsigned int": (32, 0), "long": (64, 1), "unsigned long": (64, 0), "long long": (64, 1), "unsigned long long": (64, 0),
          "short": (16, 1), "unsigned short": (16, 0), "signed char": (8, 1), "char": (8, 1), "unsigned char": (8, 0)}
DIGITS = {"double": 17, "float": 9}
OVER64 = 2 ** 1024 - 2 ** 970          # rounds to an infinite double from here on
OVER32 = 2 ** 128 - 2 ** 103
DMAX = Q(np.finfo(np.float64).max.item())
TINY = Q(math.ulp(0.0))
INF = float("inf")


def nmodel(*pats):
    def deco(f):
        for p in pats:
            NM.append((re.compile(p), f))
        return f
    return deco


class Split(Exception):
    """the region must be divided at a number: the part below, the number, the part above"""

    def __init__(self, at):
        self.at = at


class Region:
    """kind: plain (lo..hi integers, hi may be None), frac (doubles lo..hi), or the name of a special value"""

    def __init__(self, kind, lo=0, hi=0, integral=True, minus=0, shape=""):
        self.kind, self.lo, self.hi, self.integral, self.minus, self.shape = kind, lo, hi, integral, minus, shape

    def text(self):
        if self.kind in ("inf", "nan"):
            return ("-" if self.minus else "") + self.kind

        def f(x):
            return "..." if x is None else "%d" % x if abs(x) < 2 ** 70 and Q(x).denominator == 1 else "%.17g" % float(x) if abs(x) < OVER64 else "%de400" % (x // 10 ** 400)
        s = f(self.lo) if self.lo == self.hi else "%s to %s" % (f(self.lo), f(self.hi))
        if self.kind == "plain":
            return s
        return s + ("" if self.lo == self.hi else ", integral" if self.integral else ", not integral") + (", written with " + " and ".join(
            {".": "a fraction", "e": "e", "E": "E", "+": "+", "-": "-"}[c] for c in self.shape) if self.shape else "")

    def parts(self, at):
        """the region below, at and above a number"""
        out = []

        def add(lo, hi):
            if lo is None or hi is None or lo <= hi:
                r = Region(self.kind, lo, hi, self.integral, self.minus, self.shape)
                if r.proper():
                    out.append(r)
        at = Q(at)
        if self.kind == "plain":
            f = math.floor(at)
            if f == at:
                add(self.lo, int(f) - 1)
                add(int(f), int(f))
            else:
                add(self.lo, int(f))
            add(int(f) + 1, self.hi)
            return [r for r in out if r.hi is None or r.lo is None or r.lo <= r.hi]
        d = float(at)
        if Q(d) == at:
            add(self.lo, Q(math.nextafter(d, -INF)))
            add(at, at)
            add(Q(math.nextafter(d, INF)), self.hi)
        else:
            b = d if Q(d) < at else math.nextafter(d, -INF)
            add(self.lo, Q(b))
            add(Q(math.nextafter(b, INF)), self.hi)
        return out

    def proper(self):
        """is there such a number"""
        if self.kind != "frac":
            return True
        if self.integral is False:
            a, b = max(self.lo, -Q(2) ** 52), min(self.hi, Q(2) ** 52)
            if a > b or a == b and a.denominator == 1:
                return False
            # only integers in between
            if a < b and b - a < 1 and math.ceil(a) == math.floor(b) and a == b:
                return False
            return True
        if self.integral is True:
            return math.floor(self.hi) >= math.ceil(self.lo)
        return True


# ------------------------------------------------------------------ values over the region

class Num:
    """c * number + [lo, hi]; number is the unknown of the region"""
    __slots__ = ("c", "lo", "hi", "int", "clip")

    def __init__(self, c, lo, hi, isint=False, clip=None):
        self.c, self.lo, self.hi, self.int = c, lo, hi, isint
        self.clip = clip        # bounds that are known besides


def ulp(x):
    return Q(math.ulp(float(min(abs(x), DMAX))))


class Numbers(Driver):
    """what both directions share"""
    name = "numbers"

    def __init__(self, mod, ns, entry, T):
        Driver.__init__(self, mod, NM + MODELS)
        models.KEYWORDS.clear()
        self.ns, self.entry, self.T = ns, entry, T
        self.count = {}
        self.runs = 0

    def tick(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def explore(self, regions):
        todo = list(regions)
        while todo:
            r = todo.pop()
            self.R = r
            self.runs += 1
            if self.runs > 20000:
                self.problem(Unmodelled("more than 20000 regions"))
                break
            before = len(self.problems)
            try:
                st = self.begin(r)
                Driver.explore(self, [st])
                self.tick("regions")
            except Split as s:
                p = r.parts(s.at)
                if len(p) < 2:
                    self.problem(Unmodelled("a comparison that cannot be decided (%s)" % r.text()))
                    todo += self.points(r)
                    continue
                todo += p
            else:
                if len(self.problems) > before and not self.single(r):
                    todo += self.points(r)
            if len(self.findings) >= self.MAXFINDINGS:
                break
        self.stats["states"] = self.runs
        return self

    def single(self, r):
        return r.kind in ("inf", "nan") or r.lo == r.hi

    def points(self, r):
        """single numbers of a region that as a whole is not decided: the answer stays incomplete, but a finding among them counts"""
        if self.single(r) or r.kind != "frac" and (r.lo is None or r.hi is None):
            return []
        out, at = [], [r.lo, r.hi]
        for e in (-40, -20, -3):
            at += [x + s * Q(2) ** e for x in (Q(1), Q(0), Q(-1), r.lo, r.hi) for s in (1, -1)]
        for x in at:
            x = Q(float(x)) if r.kind == "frac" else Q(math.floor(x))
            if r.lo <= x <= r.hi and (r.kind == "plain" or r.integral is None or r.integral == (x.denominator == 1)):
                x = int(x) if r.kind == "plain" else x
                out.append(Region(r.kind, x, x, r.integral, r.minus, r.shape))
        return out

    # ---- evaluation
    def bounds(self, n):
        """range of a Num; None is infinite"""
        if n.c == 0:
            return n.lo, n.hi
        lo, hi = (self.R.lo, self.R.hi) if n.c > 0 else (self.R.hi, self.R.lo)
        lo, hi = (None if lo is None else n.c * lo + n.lo), (None if hi is None else n.c * hi + n.hi)
        return (lo, hi) if n.clip is None else (max(lo, n.clip[0]), min(hi, n.clip[1]))

    def base(self):
        return Num(1, Q(0), Q(0), self.R.integral is True)

    def fp(self, v):
        """a floating point value: Num, 'inf', '-inf', 'nan', or None when it is not known"""
        R = self.R
        if v[0] == "D":
            f = np.uint64(v[1]).view(np.float64).item()
            if f != f:
                return "nan"
            if f in (INF, -INF):
                return "inf" if f > 0 else "-inf"
            return Num(0, Q(f), Q(f), Q(f).denominator == 1)
        if v[0] != "X":
            return None
        op = v[1]
        if op == "dval":
            if R.kind == "nan":
                return "nan"
            if R.kind == "inf":
                return "-inf" if R.minus else "inf"
            if R.kind == "plain":
                m = max(abs(R.lo) if R.lo is not None else OVER64, abs(R.hi) if R.hi is not None else OVER64)
                if m <= 2 ** 53:
                    return self.base()
                if R.lo is not None and R.lo >= OVER64 or R.hi is not None and R.hi <= -OVER64:
                    return "-inf" if R.minus else "inf"
                if R.lo is None or R.hi is None or m >= OVER64:
                    raise Split(-OVER64 if R.minus else OVER64)
                d = ulp(m)
                return Num(1, -d, d, True, (Q(float(R.lo)), Q(float(R.hi))))
            return self.base()
        a = [self.fp(x) for x in v[2:-1] if type(x) is tuple and x[0] in "DX"] if op not in ("sitofp", "uitofp") else []
        if op in ("sitofp", "uitofp"):
            n = self.int(v[2], op == "sitofp")
            if n is None:
                return None
            lo, hi = self.bounds(n)
            m = max(abs(lo), abs(hi))
            if m <= 2 ** 53 or self.R.kind == "frac" and n.c and n.lo == n.hi == 0:
                return Num(n.c, n.lo, n.hi, True)
            d = ulp(m)
            return Num(n.c, n.lo - d, n.hi + d, True)
        if any(x is None for x in a):
            return None
        x = a[0]
        if type(x) is str:
            if op == "fneg":
                return {"inf": "-inf", "-inf": "inf", "nan": "nan"}[x]
            if op in ("fpext", "f32", "floor", "ceil", "trunc", "rint"):
                return x
            if op == "fabs":
                return "nan" if x == "nan" else "inf"
            return None
        if op == "fpext":
            return x
        if op == "f32":
            lo, hi = self.bounds(x)
            if lo >= OVER32:
                return "inf"
            if hi <= -OVER32:
                return "-inf"
            if hi >= OVER32 or lo <= -OVER32:
                if x.c and x.lo == x.hi:
                    raise Split((OVER32 - x.lo) / x.c if hi >= OVER32 else (-OVER32 - x.lo) / x.c)
                return None
            with np.errstate(all="ignore"):
                r = [Q(np.float32(float(y)).item()) for y in (lo, hi)]
            if self.T == "float" and v[2] == ("X", "dval", 0, 64) and self.direct:
                return x
            return Num(0, r[0], r[1])
        if op == "fneg":
            return Num(-x.c, -x.hi, -x.lo, x.int)
        if op == "fabs":
            lo, hi = self.bounds(x)
            if lo >= 0:
                return x
            if hi <= 0:
                return Num(-x.c, -x.hi, -x.lo, x.int)
            if x.c and x.lo == x.hi:
                raise Split(-x.lo / x.c)
            return None
        if op in ("floor", "ceil", "trunc", "rint"):
            if x.int:
                return x
            lo, hi = self.bounds(x)
            if lo == hi:
                r = Q({"floor": math.floor, "ceil": math.ceil, "trunc": math.trunc, "rint": round}[op](lo))
                return Num(0, r, r, True)
            if op == "trunc":
                if lo >= 0:
                    op = "floor"
                elif hi <= 0:
                    op = "ceil"
                else:
                    if x.c and x.lo == x.hi:
                        raise Split(-x.lo / x.c)
                    return None
            if x.c in (1, -1) and x.lo == x.hi == 0 and self.R.integral is False:
                if op == "floor":
                    return Num(x.c, -1 + TINY, -TINY, True)
                if op == "ceil":
                    return Num(x.c, TINY, 1 - TINY, True)
                return Num(x.c, -Q(1, 2), Q(1, 2), True)
            return Num(x.c, x.lo - (op != "ceil"), x.hi + (op != "floor"), True)
        if op in ("fadd", "fsub") and len(a) == 2 and type(a[1]) is not str:
            y = a[1]
            if op == "fsub":
                y = Num(-y.c, -y.hi, -y.lo, y.int)
            r = Num(x.c + y.c, x.lo + y.lo, x.hi + y.hi, False)
            lo, hi = self.bounds(r)
            if lo == hi and abs(lo) <= DMAX:
                d = Q(float(lo))
                return Num(0, d, d, d.denominator == 1)
            if r.c:
                lo, hi = self.bounds(r)
                d = ulp(max(abs(lo), abs(hi)))
                r.lo, r.hi = r.lo - d, r.hi + d
            return r
        return None

    def int(self, v, signed):
        """an integer value read as signed or unsigned"""
        w = width(v) if type(v) is tuple else 64
        n = self.residue(v)
        if n is None:
            return None
        lo, hi = self.bounds(n)
        if lo is None or hi is None:
            return None
        a, b = (-2 ** (w - 1), 2 ** (w - 1) - 1) if signed else (0, 2 ** w - 1)
        k = -((lo - a) // 2 ** w) * 2 ** w
        if hi + k <= b:
            return Num(n.c, n.lo + k, n.hi + k, True)
        if n.c and n.lo == n.hi:
            # the first value that is beyond the end
            raise Split((b + 1 - k - n.lo) / n.c)
        return None

    def residue(self, v):
        """some Num that is congruent to an integer value"""
        if type(v) is int:
            return Num(0, Q(v), Q(v), True)
        if v[0] != "X":
            return None
        op, w = v[1], v[-1]
        if op == "ival":
            return self.base() if self.R.integral is True else None
        if op in ("trunc",):
            return self.residue(v[2])
        if op in ("zext", "sext"):
            return self.int(v[2], op == "sext")
        if op in ("fptosi", "fptoui"):
            x = self.fp(v[2])
            if type(x) is str:
                raise Violation("a number that is not finite is converted to an integer", rule="range")
            if x is None:
                return None
            if not x.int:
                x = self.fp(("X", "trunc", v[2], 64))
                if x is None:
                    return None
            lo, hi = self.bounds(x)
            a, b = (-2 ** (w - 1), 2 ** (w - 1) - 1) if op == "fptosi" else (0, 2 ** w - 1)
            if hi < a or lo > b:
                raise Violation("a number is converted to an integer type that does not have it", rule="range")
            if lo < a or hi > b:
                if x.c:
                    at = ((a if lo < a else b + 1) - x.lo) / x.c
                    # the last one that is outside, for a difference that is not constant
                    if x.lo != x.hi and lo < a:
                        at = (a - x.lo) / x.c
                    raise Split(at)
                return None
            return x
        if op in ("add", "sub", "mul") and len(v) == 5:
            a, b = self.residue(v[2]), self.residue(v[3])
            if a is None or b is None:
                return None
            if op == "mul":
                if a.c or a.lo != a.hi:
                    a, b = b, a
                if a.c or a.lo != a.hi:
                    return None
                k = sgn(int(a.lo) % 2 ** w, w)
                return Num(k * b.c, min(k * b.lo, k * b.hi), max(k * b.lo, k * b.hi), True)
            if op == "sub":
                b = Num(-b.c, -b.hi, -b.lo, True)
            return Num(a.c + b.c, a.lo + b.lo, a.hi + b.hi, True)
        return None

    def decide_cmp(self, pred, a, b, v=None):
        """compares two Nums: lt le gt ge eq ne"""
        d = Num(a.c - b.c, a.lo - b.hi, a.hi - b.lo)
        if a.clip and b.c == 0:
            d.clip = a.clip[0] - b.hi, a.clip[1] - b.lo
        lo, hi = self.bounds(d)
        neg, pos = lo is None or lo < 0, hi is None or hi > 0
        zero = (lo is None or lo <= 0) and (hi is None or hi >= 0)
        if zero and d.c and d.lo == d.hi and self.R.integral is True and (-d.lo / d.c).denominator != 1:
            zero = False
        can = {"lt": (neg, zero or pos), "le": (neg or zero, pos), "gt": (pos, zero or neg), "ge": (pos or zero, neg),
               "eq": (zero, neg or pos), "ne": (neg or pos, zero)}[pred]
        if can[0] != can[1]:
            return int(can[0])
        if d.c and d.lo == d.hi:
            raise Split(-d.lo / d.c)
        if d.c:
            # only the ends of the uncertain part
            for e in (-d.lo / d.c, -d.hi / d.c):
                e = Q(e)
                if self.R.lo is not None and self.R.hi is not None and self.R.lo < e < self.R.hi:
                    raise Split(e)
        raise Unmodelled("a comparison that cannot be decided (%s)" % self.R.text())

    # ---- hooks of the interpreter
    def fpop(self, op, a, ins):
        if all(type(x) is tuple and x[0] == "D" for x in a) and op not in ("fptrunc", "fptosi", "fptoui"):
            return None
        if op in ("sitofp", "uitofp") and type(a[0]) is int:
            return None
        if op == "fptrunc":
            return ("X", "f32", a[0], 64) if ins.t == "float" else None
        if op == "fpext":
            return a[0] if ins.t == "double" else None
        if op in ("fptosi", "fptoui"):
            v = ("X", op, a[0], int(ins.t[1:]))
            self.residue(v)         # the range
            return v
        if op in ("sitofp", "uitofp", "fadd", "fsub", "fneg"):
            return ("X", op) + tuple(a) + (64,)
        raise Unmodelled(op + " on an unknown number")

    def fpcmp(self, st, pred, a):
        if all(x[0] == "D" for x in a):
            return None
        x, y = self.fp(a[0]), self.fp(a[1])
        if pred in ("true", "false"):
            return int(pred == "true")
        if x is None or y is None:
            raise Unmodelled("comparison of an unknown number")
        if "nan" in (x, y):
            return int(pred[0] == "u")
        if pred in ("ord", "uno"):
            return int(pred == "ord")
        p = pred[1:]
        if type(x) is str or type(y) is str:
            r = [{"inf": 1, "-inf": -1}.get(z, 0) if type(z) is str else 0 for z in (x, y)]
            return int({"lt": r[0] < r[1], "le": r[0] <= r[1], "gt": r[0] > r[1], "ge": r[0] >= r[1], "eq": r[0] == r[1], "ne": r[0] != r[1]}[p])
        for s, t in ((a[0], a[1]), (a[1], a[0])):
            if s[0] == "X" and s[1] in ("floor", "ceil", "trunc", "rint") and s[2] == t and p in ("eq", "ne"):
                n = self.fp(t)
                if n.int or t == ("X", "dval", 0, 64) and self.R.integral is False:
                    return int(bool(n.int) == (p == "eq"))
        return self.decide_cmp(p, x, y)

    def intcmp(self, st, pred, a, b, w):
        if not (uses(a) or uses(b)):
            return None
        if pred in ("eq", "ne"):
            for s in (True, False):
                try:
                    x, y = self.int(wide(a, w), s), self.int(wide(b, w), s)
                except Split:
                    if s:
                        continue
                    raise
                if x is not None and y is not None:
                    break
            else:
                raise Unmodelled("comparison of an unknown number")
            return self.decide_cmp(pred, x, y)
        x, y = self.int(wide(a, w), pred[0] == "s"), self.int(wide(b, w), pred[0] == "s")
        if x is None or y is None:
            raise Unmodelled("comparison of an unknown number")
        return self.decide_cmp(pred[1:], x, y)

    # ---- the locale
    def cloc(self, m, st, mask, name):
        n = s_bytes(cstr(m, st, name)) if type(name) is tuple else None
        ok = type(mask) is int and mask & 2 and n in (b"C", b"POSIX")
        return ("P", st.alloc("heap", "locale C" if ok else "locale", 8, x={"C": 1 if ok else 0}), 0)

    def is_c(self, st, p):
        return type(p) is tuple and p[0] == "P" and st.mem[p[1]].x.get("C")

    def check_locale(self, st):
        if st.ghost["=loc"] != 0:
            raise Violation("the locale of the thread is left changed", rule="locale", where=self.place())

    def place(self):
        return (self.entry.where(), self.entry.dem)

    def resume(self, st, s):
        raise Unmodelled("a loop over the text of a number")

    def on_throw(self, st, exc):
        raise Violation("an exception escapes (%s)" % (exc[0],), rule="exception", where=self.place())

    def state(self):
        st = State()
        g = st.ghost
        g["=loc"], g["=res"] = 0, 0
        g["#flags"] = tuple(fin(st.finsym(n, 2), 1) for n in ("a locale is made", "the number underflows"))
        i = st.alloc("global", "errno", 4)
        st.gl["#errno"] = i
        st.mem[i].cells[0] = (lin(st.widesym("errno", 0, 200), 32), 4)
        return st


def uses(v):
    if type(v) is not tuple or v[0] != "X":
        return False
    if v[1] in ("ival", "dval"):
        return True
    return any(uses(x) for x in v[2:] if type(x) is tuple)


def wide(v, w):
    return ("X", "trunc", v, w) if type(v) is int else v


@nmodel(r"^newlocale$")
def _(m, st, fn, a, ins):
    if not st.decide(st.ghost["#flags"][0]):
        st.ghost["=res"] = 1
        return 0
    return m.env.cloc(m, st, a[0], a[1])


@nmodel(r"^(freelocale)$")
def _(m, st, fn, a, ins):
    return None


@nmodel(r"^uselocale$")
def _(m, st, fn, a, ins):
    g = st.ghost
    cur = g["=loc"]
    old = st.gl.get("#loc")
    if old is None:
        old = st.gl["#loc"] = st.alloc("global", "locale of the thread", 8)
    res = ("P", cur if cur else old, 0)
    if a[0] != 0:
        if type(a[0]) is not tuple or a[0][0] != "P":
            raise Unmodelled("uselocale of something unknown")
        g["=loc"] = 0 if a[0][1] == old else a[0][1]
    return res


@nmodel(r"^setlocale$")
def _(m, st, fn, a, ins):
    if a[1] != 0:
        raise Violation("the locale of the process is changed", rule="locale")
    raise Unmodelled("setlocale")


@nmodel(r"^(__isoc23_)?(strtod|strtof|strtold|strtod_l|strtof_l|atof)$")
def _(m, st, fn, a, ins):
    return m.env.strtod(m, st, fn.dem.replace("__isoc23_", ""), a)


@nmodel(r"^(__isoc23_)?(ato(i|l|ll))$")
def _(m, st, fn, a, ins):
    v = m.env.strto(m, st, fn.dem.replace("__isoc23_", ""), [a[0], 0, 10])
    return cast("trunc", v, 64, 32) if fn.dem.endswith("i") else v


def same_fp(op):
    def f(m, st, fn, a, ins):
        v = ("X", op, a[0], 64)
        if a[0][0] == "D":
            n = m.env.fp(v)
            if type(n) is Num:
                return ("D", int(np.float64(float(n.lo)).view(np.uint64)))
        return v
    return f


for _n, _o in (("floor", "floor"), ("ceil", "ceil"), ("trunc", "trunc"), ("rint", "rint"), ("nearbyint", "rint"), ("round", "rint"), ("fabs", "fabs"), ("roundeven", "rint")):
    NM.append((re.compile(r"^(llvm\.%s\.f(64|32)|%sf?|std::%s\((double|float)\))$" % (_n, _n, _n)), same_fp(_o)))


@nmodel(r"^std::(abs|fabs)\((double|float)\)$")
def _(m, st, fn, a, ins):
    return same_fp("fabs")(m, st, fn, a, ins)


@nmodel(r"^(ldexp|pow|exp2|std::ldexp\(double, int\)|std::pow\(double, double\)|scalbn)f?$", r"^llvm\.(ldexp|pow|exp2)\.f64")
def _(m, st, fn, a, ins):
    if a[0][0] != "D" or len(a) > 1 and not (type(a[1]) is int or a[1][0] == "D"):
        raise Unmodelled(fn.dem + " of an unknown number")
    f = [np.uint64(x[1]).view(np.float64).item() if type(x) is tuple else sgn(x, 32) for x in a]
    n = fn.dem
    r = 2.0 ** f[0] if "exp2" in n else f[0] ** f[1] if "pow" in n else math.ldexp(f[0], int(f[1]))
    return ("D", int(np.float64(r).view(np.uint64)))


@nmodel(r"^fmod$", r"^std::fmod\(double, double\)$")
def _(m, st, fn, a, ins):
    if a[1] != ("D", 0x3ff0000000000000):
        raise Unmodelled("fmod")
    return ("X", "fsub", a[0], ("X", "trunc", a[0], 64), 64)


@nmodel(r"^modf$", r"^std::modf\(double, double\*\)$")
def _(m, st, fn, a, ins):
    t = ("X", "trunc", a[0], 64)
    m.store(st, a[1], t, 8)
    return ("X", "fsub", a[0], t, 64)


CLASSES = ("nan", "nan", "-inf", "-normal", "-sub", "-0", "+0", "+sub", "+normal", "inf")


@nmodel(r"^llvm\.is\.fpclass\.f(32|64)$")
def _(m, st, fn, a, ins):
    d, mask = m.env, a[1]
    if a[0][0] == "D":
        n = d.fp(a[0])
    else:
        n = d.fp(a[0])
    if n is None:
        raise Unmodelled("class of an unknown number")
    if type(n) is str:
        return int(any(mask >> k & 1 and CLASSES[k] == n for k in range(10)))
    lo, hi = d.bounds(n)
    small = Q(2) ** (-126 if fn.dem.endswith("32") else -1022)
    can = set()
    if lo <= -small:
        can.add(3)
    if lo < 0 and hi > -small:
        can.add(4)
    if lo <= 0 <= hi:
        can |= {5, 6}
    if hi > 0 and lo < small:
        can.add(7)
    if hi >= small:
        can.add(8)
    r = {mask >> k & 1 for k in can}
    if len(r) == 1:
        return r.pop()
    if n.c and n.lo == n.hi:
        for x in (-small, Q(0), small):
            at = (x - n.lo) / n.c
            if d.R.lo < at <= d.R.hi:
                raise Split(at)
    raise Unmodelled("class of an unknown number")


@nmodel(r"^std::signbit\((double|float)\)$")
def _(m, st, fn, a, ins):
    d = m.env
    n = d.fp(a[0])
    if type(n) is str and n != "nan":
        return int(n == "-inf")
    if n is None or type(n) is str:
        raise Unmodelled("sign of an unknown number")
    lo, hi = d.bounds(n)
    if lo > 0 or hi < 0:
        return int(hi < 0)
    if n.c == 1 and n.lo == n.hi == 0 and lo >= 0 or hi <= 0:
        if lo == hi == 0:
            return int(bool(d.R.minus))
    raise Split(0)


def find_in(m, st, v, y, name):
    """position of the first character of a set in the text of a number"""
    at = 0
    for p in v[1]:
        if p[0] == "k":
            for c in p[1]:
                if (c in y) == (name != "find_first_not_of"):
                    return at
                at = lin_add(at, 1, 64)
        elif p[0] == "v" and st.facts.get(("digits", p[1])):
            if name == "find_first_not_of" and set(b"0123456789") <= set(y):
                pass
            elif set(y) & set(b"0123456789") or name == "find_first_not_of":
                raise Unmodelled("search for a digit")
            at = lin_add(at, lin(p[1]), 64)
        else:
            raise Unmodelled("search in an unknown text")
    return None


@nmodel(r"^str(pbrk|chr|rchr)$", r"^memchr$")
def _(m, st, fn, a, ins):
    v = cstr(m, st, a[0])
    y = s_bytes(cstr(m, st, a[1])) if fn.dem == "strpbrk" else bytes([a[1] & 255]) if type(a[1]) is int else None
    if not y or y == b"\0" or fn.dem == "strrchr":
        raise Unmodelled(fn.dem)
    k = find_in(m, st, v, y, "find_first_of")
    return 0 if k is None else m.padd(a[0], k)


class Read(Numbers):
    """string_to_number<T>"""
    direct = 0

    def regions(self):
        out = []
        T = self.T
        shapes = [x + y + z for x in ("", ".") for y in ("", "e", "E") for z in (("", "+", "-") if y else ("",)) if x or y]
        plain = [(0, 0, 0), (0, 0, 1), (1, None, 0), (None, -1, 1)]
        for lo, hi, minus in plain:
            if T not in DIGITS:
                r = [Region("plain", lo, hi, True, minus)]
                for c in (-2 ** 64, -2 ** 63, 2 ** 63, 2 ** 64):
                    r = [q for p in r for q in (p.parts(c) if (p.lo is None or p.lo < c) and (p.hi is None or p.hi >= c) and p.lo != p.hi else [p])]
                out += r
        for sh in shapes + [""] * (T in DIGITS):        # for a type of doubles all texts are what strtod makes of them
            for minus in (0, 1):
                s = -1 if minus else 1
                out.append(Region("inf", minus=minus, shape=sh))
                out.append(Region("frac", Q(0), Q(0), True, minus, sh))
                for integral in (True, False) if sh else (True,):
                    lo, hi = (Q(1) if integral else TINY), DMAX if integral else Q(math.nextafter(2.0 ** 52, 0))
                    out.append(Region("frac", lo, hi, integral, minus, sh) if s > 0 else Region("frac", -hi, -lo, integral, minus, sh))
        return out

    def begin(self, r):
        st = self.state()
        m = self.m
        s = st.alloc("heap", "text", 32)
        out = st.alloc("heap", "number", NUMBERS.get(self.T) or LIMITS[self.T][0] // 8)

        def digits(n):
            y = st.widesym(n, 1, None)
            st.facts["digits", y] = True
            return ("v", y)
        p = [("k", b"-")] if r.minus else []
        p.append(digits("digits"))
        sh = r.shape
        k = b""
        if sh[:1] == ".":
            p += [("k", b"."), digits("fraction")]
            sh = sh[1:]
        if sh:
            p += [("k", sh.encode()), digits("exponent")]
        del k
        v = ("S", tuple(p))
        models.setS(m, st, ("P", s, 0), v)
        st.ghost["text"], st.ghost["out"] = v, ("#obj", out)
        m.store(st, ("P", out, 0), ("U",), st.mem[out].size)
        st.note("in", r.text())
        m.call_function(st, self.entry, [("P", s, 0), ("P", out, 0)])
        return st

    def find(self, m, st, name, v, y, pos):
        if y is None or pos not in (0, mk(64, -1)) or not self.is_text(m, st, v):
            raise Unmodelled(name + " on an unknown text")
        if name == "find" and len(y) != 1 or name in ("rfind", "find_last_of"):
            if name == "find":
                raise Unmodelled(name)
            k = find_in(m, st, v, y, "find_first_of")
            if k is not None:
                raise Unmodelled(name)
            return mk(64, -1)
        k = find_in(m, st, v, y, name)
        return mk(64, -1) if k is None else k

    def is_text(self, m, st, v):
        return v == st.ghost["text"]

    def strtod(self, m, st, name, a):
        v = cstr(m, st, a[0])
        if not self.is_text(m, st, v):
            raise Unmodelled(name + " of another text")
        R = self.R
        loc = a[2] if name.endswith("_l") else st.ghost["=loc"] and ("P", st.ghost["=loc"], 0)
        if loc == 0 and name.endswith("_l"):
            raise Violation("a null locale is used", rule="locale")
        if not self.is_c(st, loc) and "." in R.shape:
            raise Violation("the value of a number depends on the locale of the process", rule="locale")
        if len(a) > 1 and type(a[1]) is tuple:
            m.store(st, a[1], m.padd(a[0], s_len(v)), 8)
        self.tick("conversions")
        d = ("X", "dval", 0, 64)
        if R.kind == "inf":
            self.errno(m, st)
        elif name.startswith(("strtod", "atof")) and R.kind == "frac" and R.lo != R.hi and min(abs(R.lo), abs(R.hi)) < Q(2) ** -1022:
            # may have underflowed
            if st.decide(st.ghost["#flags"][1]):
                self.errno(m, st)
        if name.startswith("strtof"):
            return ("X", "f32", d, 64)
        if name.startswith("strtold"):
            raise Unmodelled(name)
        return d

    def errno(self, m, st):
        m.store(st, ("P", st.gl["#errno"], 0), 34, 4)

    def strto(self, m, st, name, a):
        v = cstr(m, st, a[0])
        if not self.is_text(m, st, v):
            raise Unmodelled(name + " of another text")
        if a[2] not in (10, 0):
            raise Violation("a number is read in base %s" % (a[2],), rule="value", where=None)
        R = self.R
        self.tick("conversions")
        u = "u" in name
        if R.kind == "plain":
            if type(a[1]) is tuple:
                m.store(st, a[1], m.padd(a[0], s_len(v)), 8)
            lo = R.lo
            iv = ("X", "ival", 0, 64)
            if not u:
                if R.hi is not None and lo is not None and -2 ** 63 <= lo and R.hi < 2 ** 63:
                    return iv
                if lo is not None and lo >= 2 ** 63 or R.hi is not None and R.hi < -2 ** 63:
                    self.errno(m, st)
                    return 2 ** 63 - 1 if not R.minus else 2 ** 63
                raise Split(2 ** 63 if not R.minus else -2 ** 63)
            if R.hi is not None and lo is not None and -2 ** 64 < lo and R.hi < 2 ** 64:
                return iv
            if lo is not None and lo >= 2 ** 64 or R.hi is not None and R.hi <= -2 ** 64:
                self.errno(m, st)
                return 2 ** 64 - 1
            raise Split(2 ** 64 if not R.minus else -2 ** 64)
        if not R.shape:
            raise Unmodelled(name + " for a floating point number")
        # the digits before the fraction or the exponent
        k = find_in(m, st, v, b".eE", "find_first_of")
        if type(a[1]) is tuple:
            m.store(st, a[1], m.padd(a[0], k), 8)
        return lin(st.widesym("the digits before the fraction or exponent", 0, 2 ** 62))

    def on_return(self, st, val):
        T, R, m = self.T, self.R, self.m
        where = self.place()
        self.check_locale(st)
        out = ("P", st.ghost["out"][1], 0)
        val = cast("trunc", val, 8, 1) if type(val) is tuple and width(val) == 8 else val
        if type(val) is not int:
            raise Unmodelled("an outcome that is not known")
        what = "text without fraction and exponent" if not R.shape else "text with fraction or exponent"
        if T in DIGITS:
            d = self.fp(("X", "f32", ("X", "dval", 0, 64), 64) if T == "float" else ("X", "dval", 0, 64))
            good = type(d) is not str
        else:
            w, s = LIMITS[T]
            lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)
            if R.kind == "inf":
                good = False
            elif R.integral is False:
                good = False
            else:
                good = bool(self.decide_cmp("ge", self.base(), Num(0, Q(lo), Q(lo))) and self.decide_cmp("le", self.base(), Num(0, Q(hi), Q(hi))))
        if not val & 1:
            self.tick("refusals")
            if good and not st.ghost["=res"]:
                raise Violation("a number that type %s has is refused (%s)" % (T, what), rule="range", where=where)
            return ()
        self.tick("numbers")
        if not good:
            raise Violation("a number that type %s does not have is accepted (%s)" % (T, what), rule="range", where=where)
        o = st.mem[out[1]]
        v = m.load(st, out, T if T in DIGITS else "i%d" % LIMITS[T][0])
        bad = "the value stored is not the number (%s, type %s)" % (what, T)
        if type(v) is tuple and v[0] == "U":
            raise Violation("no value is stored for a number", rule="value", where=where)
        del o
        if T == "double":
            x = self.fp(v) if type(v) is tuple and v[0] in "DX" else None
            if v == ("X", "dval", 0, 64):
                return ()
            if x is None and v[0] not in "DX":
                raise Unmodelled("a value that is not known")
            if type(x) is Num and x.c == 1 and x.lo == x.hi == 0:
                return ()
            if type(x) is Num and R.lo == R.hi and x.c == 0 and x.lo == x.hi == R.lo:
                if R.lo == 0 and R.minus:
                    raise Violation("the sign of a zero is lost", rule="value", where=where)
                return ()
            raise Violation(bad, rule="value", where=where)
        if T == "float":
            if v in (("X", "f32", ("X", "dval", 0, 64), 64),):
                return ()
            if type(v) is tuple and v[0] in "DX":
                raise Violation(bad, rule="value", where=where)
            raise Unmodelled("a value that is not known")
        x = self.residue(v)
        if x is None:
            if type(v) is tuple and v[0] == "L" or type(v) is int:
                raise Violation(bad, rule="value", where=where)
            raise Unmodelled("a value that is not known (%s)" % (v[:2],))
        M = 2 ** LIMITS[T][0]
        d = Num(x.c - 1, x.lo, x.hi)
        lo, hi = self.bounds(d)
        if d.c == 0 and lo == hi and lo % M == 0 or R.lo == R.hi and lo == hi and lo % M == 0:
            return ()
        raise Violation(bad, rule="value", where=where)


class Write(Numbers):
    """number_to_string<T>"""
    direct = 1

    def regions(self):
        if self.T in DIGITS:
            top = DMAX if self.T == "double" else Q(np.finfo(np.float32).max.item())
            low = TINY if self.T == "double" else Q(2) ** -149
            out = [Region("nan"), Region("inf"), Region("inf", minus=1), Region("frac", Q(0), Q(0), True, 0), Region("frac", Q(0), Q(0), True, 1)]
            for integral in (True, False):
                lo = Q(1) if integral else low
                out.append(Region("frac", lo, top, integral))
                out.append(Region("frac", -top, -lo, integral, 1))
            return out
        w, s = LIMITS[self.T]
        lo, hi = (-2 ** (w - 1), 2 ** (w - 1) - 1) if s else (0, 2 ** w - 1)
        return ([Region("plain", lo, -1, True, 1)] if s else []) + [Region("plain", 0, 0, True, 0), Region("plain", 1, hi, True, 0)]

    def begin(self, r):
        st = self.state()
        m = self.m
        res = st.alloc("heap", "result", 32)
        val = st.alloc("heap", "number", NUMBERS.get(self.T) or LIMITS[self.T][0] // 8)
        if self.T in DIGITS:
            v = ("X", "dval", 0, 64)
        else:
            w = LIMITS[self.T][0]
            v = ("X", "ival", 0, w)
        m.store(st, ("P", val, 0), v, st.mem[val].size)
        st.ghost["res"], st.ghost["val"] = ("#obj", res), v
        st.note("in", r.text())
        m.call_function(st, self.entry, [("P", res, 0), ("P", val, 0)])
        return st

    def snprintf(self, m, st, fn, a):
        k = 2 if fn.dem == "snprintf" else 1
        fmt = s_bytes(cstr(m, st, a[k]))
        if fmt is None:
            raise Unmodelled("snprintf with an unknown format")
        mm = re.match(r"^%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|L)?([a-zA-Z])$", fmt.decode("latin1"))
        if not mm:
            raise Unmodelled("snprintf with the format %r" % fmt)
        fl, wd, pr, ln, cv = mm.groups()
        args = list(a[k + 1:])
        if wd == "*":
            wd = args.pop(0)
        if pr == "*":
            pr = args.pop(0)
            pr = sgn(mk(32, pr), 32) if type(pr) is int else pr
        v = args.pop(0)
        if wd is not None or fl or pr is not None and type(pr) not in (int, str):
            raise Unmodelled("snprintf with the format %r" % fmt)
        if cv in "di" or cv == "u":
            if pr is not None:
                raise Unmodelled("snprintf with the format %r" % fmt)
            w = {"hh": 8, "h": 16, None: 32}.get(ln, 64)
            key = ("int", cast("trunc", v, width(v), w) if width(v) > w else v, w, cv != "u")
            top = 21
        elif cv in "gGeE":
            if ln == "L":
                raise Unmodelled("snprintf with the format %r" % fmt)
            pr = 6 if pr is None or int(pr) < 0 else int(pr)
            digits = max(pr, 1) if cv in "gG" else pr + 1
            if not self.is_c(st, st.ghost["=loc"] and ("P", st.ghost["=loc"], 0)):
                raise Violation("the text of a number depends on the locale of the process", rule="locale")
            key = ("float", digits, v)
            top = digits + 8
        elif cv in "fF":
            key = ("fixed", v)
            top = 320 + (6 if pr is None else int(pr))
        else:
            raise Violation("a number is written with the conversion %%%s" % cv, rule="text")
        size = a[1] if k == 2 else None
        p = a[0]
        o = st.mem[p[1]]
        off = st.concrete(p[2])
        room = o.size - sgn(off, 64)
        if type(size) is int and size > room:
            raise Violation("snprintf is given more room than '%s' has" % o.name, rule="memory")
        room = size if type(size) is int else room
        if top + 1 > room:
            raise Violation("the text of a number may not fit in %d bytes" % room, rule="text")
        self.tick("conversions")
        o = st.wobj(p[1])
        for c in [c for c in o.cells if type(c) is int and off <= c < off + room]:
            del o.cells[c]
        s = num_piece(st, key)
        st.dom[s[1]] = (1, top, 1, 0)
        o.x["ctext"] = (off, ("S", (s,)), top)
        return lin(s[1], 32)

    def on_return(self, st, val):
        m, T, R = self.m, self.T, self.R
        where = self.place()
        self.check_locale(st)
        v = getS(m, st, ("P", st.ghost["res"][1], 0))
        b = s_bytes(v)
        self.tick("texts")
        if st.ghost["=res"]:
            return ()
        if R.kind in ("inf", "nan"):
            if b != b"null":
                raise Violation("a number that is not finite is not written as null", rule="text", where=where)
            return ()
        if b is not None:
            # a constant
            if R.lo == R.hi:
                try:
                    if re.match(rb"^-?(0|[1-9]\d*)(\.\d+)?([eE][-+]?\d+)?$", b) and Q(b.decode()) == R.lo and (b[:1] == b"-") == bool(R.minus and (R.lo or T in DIGITS)):
                        return ()
                except ValueError:
                    pass
            raise Violation("a number is written as the text %r" % b.decode("latin1"), rule="text", where=where)
        if len(v[1]) != 1 or v[1][0][0] != "v" or ("numof", v[1][0][1]) not in st.facts:
            raise Unmodelled("the text of a number is put together")
        key = st.facts["numof", v[1][0][1]]
        if key[0] == "num":
            t = key[2]
            key = ("int", key[1]) + LIMITS[t]
        if key[0] == "fixed":
            raise Violation("a number is written without its exponent and loses digits", rule="text", where=where)
        if key[0] == "float":
            if T not in DIGITS:
                x = self.fp(key[2])
                raise Violation("an integer is written as a floating point number", rule="text", where=where)
            if key[2] != st.ghost["val"]:
                raise Violation("another number is written", rule="text", where=where)
            if key[1] < DIGITS[T]:
                raise Violation("a number is written with %d digits, of the %d that keep its value" % (key[1], DIGITS[T]), rule="text", where=where)
            return ()
        if T in DIGITS:
            n = self.int(key[1], key[3]) if self.R.integral is True else None
            if n is not None and n.c == 1 and n.lo == n.hi == 0:
                if self.R.lo == 0 and self.R.minus:
                    raise Violation("the sign of a zero is not written", rule="text", where=where)
                return ()
            raise Violation("a floating point number is written as an integer", rule="text", where=where)
        n = self.int(key[1] if width(key[1]) == key[2] else wide(key[1], key[2]), bool(key[3]))
        if n is not None and n.c == 1 and n.lo == n.hi == 0:
            return ()
        raise Violation("another number is written", rule="text", where=where)


@nmodel(r"^snprintf$", r"^sprintf$")
def _(m, st, fn, a, ins):
    if not hasattr(m.env, "snprintf"):
        raise Unmodelled("snprintf")
    return m.env.snprintf(m, st, fn, a)


@nmodel(r"^std::to_string\((float|double|long double)\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], ("S", (num_piece(st, ("fixed", a[1])),)))


STN = re.compile(r"^(?:bool )?protogen_\w+::string_to_number<([^,>]*)(?:, \w+)*>\(std::string const&, [^,]*&\)$")
NTS = re.compile(r"^std::string protogen_\w+::number_to_string<([^,>]*)(?:, \w+)*>\([^,]* const&\)$")


def functions(mod):
    """(function, type, class of the driver)"""
    for n, f in sorted(mod.funcs.items()):
        if not f.blocks:
            continue
        for rx, c in ((STN, Read), (NTS, Write)):
            mm = rx.match(f.dem)
            if mm:
                yield f, mm.group(1), c
