"""The operations of messages and fields besides reading and writing: empty, clear, equal, swap, comparison, assignment and
construction, interpreted on unknown objects and compared with what they mean for the parts of the object."""
import re
from .explore import *
from .drv_codec import Codec, RM, Types, norm, split_targs, NUMBERS, Anchor
from .models import MODELS, getS, getV, setS, cstr, s_len, NOTBYTES, streq, cell_get, cell_set, TAILCALL
from . import models
from .vals import *

OM = []


def omodel(*pats):
    def deco(f):
        for p in pats:
            OM.append((re.compile(p), f))
        return f
    return deco


def neg(c):
    return (1 - c) if type(c) is int else icmp("eq", c, 0, 1)


@omodel(r"^bool std::operator([!=])=<char, .*>\(std::string const&, (char const\*|std::string const&)\)$",
        r"^bool std::operator([!=])=<char, .*>\((char const\*), std::string const&\)$",
        r"^bool std::operator([!=])=<.*>\(std::(vector|list)<.*> const&, std::(vector|list)<.*> const&\)$")
def _(m, st, fn, a, ins):
    d = m.env
    v = [cstr(m, st, x) if t == "char const*" else d.content(st, x) for x, t in zip(a, signature(fn.dem)[1])]
    r = d.same(st, v[0], v[1])
    return neg(r) if "operator!=" in fn.dem else r


@omodel(r"^std::string::compare\((char const\*|std::string const&)\) const$")
def _(m, st, fn, a, ins):
    d = m.env
    r = d.same(st, d.content(st, a[0]), cstr(m, st, a[1]) if "char const*" in fn.dem else d.content(st, a[1]))
    return 0 if st.decide(r) else 1


@omodel(r"^(?:typename )?(?:void )?.*std::swap<.*>\(std::(vector|list)<.*&, std::(vector|list)<.*&\)$", r"^(?:typename )?(?:void )?.*std::swap<.*>\(std::string&, std::string&\)$",
        r"^std::(vector|list)<.*>::swap\(std::(vector|list)<.*&\)$", r"^std::string::swap\(std::string&\)$")
def _(m, st, fn, a, ins):
    c = [cell_get(m, st, p) for p in a[:2]]
    if None in c:
        raise Unmodelled("swap of something unknown")
    cell_set(m, st, a[0], *c[1])
    cell_set(m, st, a[1], *c[0])


@omodel(r"^std::(vector|list)<" + NOTBYTES + r".*>::(vector|list)\(std::(vector|list)<.*(const&|&&)\)$",
        r"^std::(vector|list)<" + NOTBYTES + r".*>::operator=\(std::(vector|list)<.*(const&|&&)\)$")
def _(m, st, fn, a, ins):
    c = cell_get(m, st, a[1])
    if c is None or type(c[0]) is not tuple or c[0][0] != "V":
        raise Unmodelled("container of unknown content")
    move = fn.dem.endswith("&&)")
    if a[0] == a[1]:
        return a[0] if "operator=" in fn.dem else None
    o = st.mem[c[0][1]]
    i = st.alloc("seq", "copy", x=dict(o.x, copyof=o.x.get("copyof", c[0][1])))
    cell_set(m, st, a[0], ("V", i), 24)
    if move:
        cell_set(m, st, a[1], ("V", st.alloc("seq", "moved", x={"esize": o.x["esize"], "n": 0})), 24)
    return a[0] if "operator=" in fn.dem else None


@omodel(r"^std::(vector|list)<" + NOTBYTES + r".*>::(clear\(\)|resize\(unsigned long\)|erase\(.*\))$")
def _(m, st, fn, a, ins):
    v = getV(m, st, a[0], fn)
    o = st.mem[v]
    if "clear" not in fn.dem and not ("resize" in fn.dem and a[1] == 0):
        raise Unmodelled(fn.dem)
    cell_set(m, st, a[0], ("V", st.alloc("seq", "cleared", x={"esize": o.x["esize"], "n": 0})), 24)


@omodel(r"^std::string::empty\(\) const$", r"^std::(vector|list)<.*>::empty\(\) const$")
def _(m, st, fn, a, ins):
    return m.env.zeroness(st, m.env.content(st, a[0]))


@omodel(r"^std::(vector|list)<" + NOTBYTES + r".*>::(front|back|operator\[\]|at)\(.*\)( const)?$")
def _(m, st, fn, a, ins):
    raise Unmodelled("elements of a container in an operation")


@omodel(r"^bool std::equal<.*>\(.*\)$")
def _(m, st, fn, a, ins):
    """comparison of a whole container with (the beginning of) another one"""
    d = m.env
    i, j = a[0][1], a[2][1]
    if not all(type(x) is tuple and x[0] == "P" for x in a) or a[0][2] != 0 or a[2][2] != 0 or len(a) > 4 or a[1][1] != i:
        raise Unmodelled(fn.dem)
    n, k = st.mem[i].x["n"], st.mem[j].x["n"]
    if a[1][2] != lin_scale(n, st.mem[i].x["esize"], 64) or len(a) == 4 and a[3][2] != lin_scale(k, st.mem[j].x["esize"], 64):
        raise Unmodelled(fn.dem)
    if n == k or st.decide(d.same(st, n, k)):
        return d.same(st, ("V", i), ("V", j))
    if len(a) == 4:
        return 0
    if st.decide(d.zeroness(st, n)):
        return 1
    return int(st.decide(icmp("ne", ("T", st.facts["prefix"], (0, 1), 1), 0, 1)))


@omodel(r"^std::string::erase\(unsigned long, unsigned long\)$")
def _(m, st, fn, a, ins):
    if a[1] != 0 or a[2] not in (-1, (1 << 64) - 1):
        raise Unmodelled(fn.dem)
    setS(m, st, a[0], ("S", ()))
    return a[0]


@omodel(r"^std::(isnan|isfinite|isinf|signbit)\((double|float)\)$", r"^nextafterf?$", r"^std::nextafter\((double|float), (double|float)\)$")
def _(m, st, fn, a, ins):
    raise Unmodelled(fn.dem)


def summary(m, st, fn, a, ins):
    """an operation on fields or parts within an operation: each is checked on its own"""
    d = m.env
    try:
        s = d.summaries(fn)
        if s is not None:
            op, X, Y = s
            x = d.now(st, X, a[0])
            if op == "empty":
                return int(all(d.absent(st, u) for u in x.values()))
            if op == "clear":
                d.put(st, X, a[0], None)
                return None
            y = d.now(st, Y, a[1])
            if x.keys() != y.keys():
                raise Unmodelled("other parts")
            if op in ("equal", "eq", "ne"):
                r = int(a[0] == a[1] or all(d.equal_units(st, x[n], y[n]) for n in x))
                return 1 - r if op == "ne" else r
            if all(x[n][0] == y[n][0] for n in x):
                if a[0] != a[1]:
                    d.put(st, X, a[0], y)
                    if op == "swap":
                        d.put(st, Y, a[1], x)
                return a[0] if op == "assign" else None
    except (Unmodelled, Anchor):
        pass
    m.call_function(st, fn, a, ins)
    return TAILCALL


class Ops(Codec):
    name = "operations"
    PATIENCE, TIME = 2, 30

    def __init__(self, mod, ns, entry, own, op, args, X):
        own_models = [(re.compile("^(bool )?" + ns + r"::(json<.*>::(equal|empty|swap|clear)|(string_)?field.*::(operator(=|==|!=)|empty|swap|clear))\("), summary)]
        Codec.__init__(self, mod, ns, own_models + OM + [x for x in RM if "read" not in x[0].pattern])
        self.entry, self.own, self.op, self.args, self.X = entry, own, op, args, X
        self.known_ops = {}

    # ---- parts of an object: (name, kind, {role: (offset, size, kind)})
    def units(self, X, off=0, path=""):
        T = self.types
        k = T.kind(X)
        if k in ("number", "bool", "string", "bytes", "container"):
            return [(path or "value", "raw", [(off, T.size(X), {"number": "f" if X in ("double", "float") else "i", "bool": "b", "string": "S", "bytes": "S", "container": "V"}[k], X)])]
        if k in ("field", "string_field"):
            ls = T.leaves1(X, off)
            flag = [x for x in ls if x[1] == "b"]
            if k == "field" and split_targs(X)[0] == "bool":
                flag = [x for x in ls if x[4].split(".")[-1] != "value_"]
            val = [x for x in ls if x not in flag]
            if len(flag) != 1 or len(val) != 1:
                raise Unmodelled("parts of " + X)
            return [(path or "value", k, [(x[0], x[2], x[1], x[3]) for x in (flag[0], val[0])])]
        t = T.t.get(X)
        if t is None:
            raise Anchor("type " + X)
        out = []
        for b, o in t["bases"]:
            out += self.units(norm(b), off + o, path)
        for n, o, ty, size in t["members"]:
            if not n.startswith("_vptr"):
                out += self.units(norm(ty), off + o, path + "." + n if path else n)
        return out

    # ---- unknown objects
    def fill(self, st, objs):
        """fills the objects [(parts, address or None, tag)] with unknown values. One finite unknown per part decides which
        of the objects have a value, which values are zero (empty), and which are the same"""
        snaps = [{} for _ in objs]
        for k, (us, p, tag) in enumerate(objs):
            for name, kind, ls in us:
                if name in snaps[k]:
                    continue
                both = [j for j in range(k, len(objs)) if any(u[0] == name and u[2][-1][2] == ls[-1][2] for u in objs[j][0])]
                self.part(st, name, [(j, objs[j][1], objs[j][2], [u for u in objs[j][0] if u[0] == name][0]) for j in both], snaps)
        return snaps

    def part(self, st, name, os, snaps):
        vk = os[0][3][2][-1][2]
        kinds = [o[3][1] for o in os]
        cases = [()]
        for k in kinds:
            if vk == "b":
                one = [(1, 1, 0), (0, 1, 0), (0, 0, 1)] if k == "field" else [(0, 1, 0), (0, 0, 1)]
            else:
                one = [(f, z, None) for f in ((0, 1) if k != "raw" else (0,)) for z in (0, 1) if not (k == "field" and f and not z and vk in "if")]
            cases = [c + (x,) for c in cases for x in one]
        full = []
        for c in cases:
            if len(c) == 1:
                full.append((c, 1, 1))
            elif vk == "b":
                full.append((c, int(c[0][2] == c[1][2]), 1))
            else:
                for s in (0, 1):
                    for l in ((0, 1, 2) if vk in "SV" else (s,)):      # lengths: less, same, greater
                        z = c[0][1], c[1][1]
                        if s and (z[0] != z[1] or l != 1) or z[0] and z[1] and not s or vk in "SV" and (z[0] and not z[1] and l or z[1] and not z[0] and l != 2):
                            continue
                        full.append((c, s, l))
        sym = st.finsym("%s of %s" % (name, " and ".join(o[2] for o in os)), len(full))
        table = lambda f, w=1: ("T", sym, tuple(int(f(x)) for x in full), w)
        keys = []
        absent = []
        for n, (j, p, tag, u) in enumerate(os):
            ls = u[2]
            vo, vs, _, T = ls[-1]
            f = table(lambda x: x[0][n][0], 8) if len(ls) == 2 else None
            if vk == "b":
                v = table(lambda x: x[0][n][2], 8)
            else:
                v = self.atom(st, vk, vs, "%s of %s" % (name, tag), table(lambda x: x[0][n][1]), T)
                keys.append(self.key(v))
            k = kinds[n]
            absent.append(table(lambda x: x[0][n][0] if k == "field" else x[0][n][0] and x[0][n][1] if k == "string_field" else x[0][n][1]))
            if p is not None:
                if f is not None:
                    self.m.store(st, self.m.padd(p, ls[0][0]), f, ls[0][1])
                q = self.m.padd(p, vo)
                if vk in "SV":
                    cell_set(self.m, st, q, v, vs)
                else:
                    self.m.store(st, q, v, vs)
            snaps[j][name] = (k, f, v, vk, absent[n])
        if len(keys) == 2:
            x, y = min(keys), max(keys)
            st.facts["same", x, y] = table(lambda c: c[1])
            if vk in "SV":
                x, y = (st.facts["length", k] for k in keys)
                st.facts["same", min(x, y), max(x, y)] = table(lambda c: c[2] == 1)
                st.facts["less", x, y], st.facts["less", y, x] = table(lambda c: c[2] == 0), table(lambda c: c[2] == 2)
        if len(os) == 2:
            eq = lambda c: c[1]
            if kinds[0] == kinds[1] and kinds[0] != "raw":
                a0, a1 = (absent[n][2] for n in (0, 1))
                e = tuple(int(a0[i] and a1[i] or not a0[i] and not a1[i] and full[i][1]) for i in range(len(full)))
            elif kinds[0] != kinds[1]:
                n = 0 if kinds[0] != "raw" else 1
                e = tuple(int(not absent[n][2][i] and full[i][1]) for i in range(len(full)))
            else:
                e = tuple(c[1] for c in full)
            st.facts["equal", self.ident(snaps[os[0][0]][name]), self.ident(snaps[os[1][0]][name])] = ("T", sym, e, 1)

    def ident(self, u):
        return (u[1], u[2])

    def atom(self, st, k, size, name, zero, T=None):
        """an unknown value; only whether it is zero (empty) and whether it equals another one matters"""
        if k == "V":
            n = st.widesym("size of " + name, 0, None)
            i = st.alloc("seq", name, x={"esize": self.types.elem_size(T), "n": lin(n)})
            key, v = ("seq", i), ("V", i)
            st.facts["length", key] = n
            st.facts["zero", n] = zero
            st.facts["atom", n] = ("n", 8)
        elif k == "S":
            n = key = st.widesym("length of " + name, 0, None)
            v = ("S", (("v", n),))
            key = ("text", n)
            st.facts["length", key] = n
            st.facts["zero", n] = zero
            st.facts["atom", n] = ("n", 8)
        else:
            key = st.widesym(name, None, None)
            v = lin(key, 8 * size)
        st.facts["zero", key] = zero
        st.facts["atom", key] = (k, size)
        return v

    def key(self, v):
        if type(v) is tuple and v[0] == "V":
            return ("seq", v[1])
        if type(v) is tuple and v[0] == "S" and len(v[1]) == 1 and v[1][0][0] == "v":
            return ("text", v[1][0][1])
        if type(v) is tuple and v[0] == "L":
            p = lin_parts(v, width(v))
            if p and p[1] == 0 and len(p[0]) == 1:
                (s, k), = p[0].items()
                if k == 1:
                    return s
        return None

    def content(self, st, p):
        """the content of a string, a vector of bytes, or a container in memory"""
        c = cell_get(self.m, st, p)
        if c is not None and type(c[0]) is tuple and c[0][0] == "V":
            return c[0]
        return getS(self.m, st, p)

    def root(self, st, i):
        """copies of a container are the same for a comparison"""
        return ("seq", st.mem[i].x.get("copyof", i))

    def same(self, st, a, b):
        """an i1: two values are the same"""
        if a == b:
            return 1
        ta, tb = (x[0] if type(x) is tuple else "c" for x in (a, b))
        if ta == tb == "T":
            return int(self.known(st, a) == self.known(st, b))
        if ta == "T" or tb == "T" or ta == tb == "c":
            return icmp("eq", a, b, 8 if ta == "T" and tb == "T" else width(a if ta == "T" else b) if "T" in (ta, tb) else 64)
        if ta == "V" and tb == "V":
            na, nb = st.mem[a[1]].x["n"], st.mem[b[1]].x["n"]
            if na == 0 or nb == 0:
                return self.zeroness(st, nb if na == 0 else na)
            x, y = self.root(st, a[1]), self.root(st, b[1])
            if x == y:
                return 1
        else:
            x, y = self.key(a), self.key(b)
            for p, q in ((x, b), (y, a)):
                if p is not None and self.zero_const(q):
                    return self.zeroness(st, a if q is b else b)
        if x is not None and x == y:
            return 1
        f = st.facts.get(("same", min(x, y), max(x, y))) if x is not None and y is not None else None
        if f is None:
            raise Unmodelled("comparison of %s and %s" % (a, b))
        return f

    def zero_const(self, v):
        return v == 0 or v == ("D", 0) or v == ("D", 1 << 63) or v == ("S", ())

    def zeroness(self, st, v):
        """an i1: the value is zero, or the text or container is empty"""
        if type(v) is int or self.zero_const(v):
            return int(self.zero_const(v))
        if v[0] == "T":
            return icmp("eq", v, 0, width(v))
        if v[0] == "V":
            return self.zeroness(st, st.mem[v[1]].x["n"])
        if v[0] == "S":
            return self.zeroness(st, s_len(v))
        k = self.key(v)
        f = st.facts.get(("zero", k))
        if f is None:
            raise Unmodelled("a value compared with zero")
        return f

    # ---- hooks
    def fpcmp(self, st, pred, a):
        if all(x[0] == "D" for x in a):
            return None
        if pred in ("oeq", "une", "ueq", "one"):
            r = self.same(st, a[0], a[1])
            return r if pred[1:] == "eq" else neg(r)
        if pred in ("ord", "uno"):
            raise Unmodelled("a test for NaN")
        raise Unmodelled("order of unknown numbers")

    def known(self, st, v):
        """a value of a finite unknown, after splitting"""
        while type(v) is tuple and v[0] == "T":
            vals = {x for i, x in enumerate(v[2]) if st.dom[v[1]] >> i & 1}
            if len(vals) == 1:
                return vals.pop()
            st.decide(icmp("eq", v, min(vals), width(v)))
            raise Unmodelled("a value that cannot be split")
        return v

    def intcmp(self, st, pred, a, b, w):
        if type(a) is tuple and a[0] == "T" and type(b) is tuple and b[0] == "T" and a[1] != b[1]:
            return icmp(pred, self.known(st, a), self.known(st, b), w)
        if not any(self.key(x) is not None and ("atom", self.key(x)) in st.facts and type(x) is tuple and x[0] == "L" for x in (a, b)):
            return None
        if pred in ("eq", "ne"):
            r = self.same(st, a, b)
            return r if pred == "eq" else neg(r)
        for x, y, p in ((a, b, pred), (b, a, {"ugt": "ult", "ult": "ugt", "uge": "ule", "ule": "uge"}.get(pred))):
            k = self.key(x)
            if type(x) is tuple and x[0] == "L" and st.facts.get(("atom", k), (0,))[0] == "n":
                if (p, y) in (("ugt", 0), ("uge", 1)):
                    return neg(self.zeroness(st, x))
                if (p, y) in (("ult", 1), ("ule", 0)):
                    return self.zeroness(st, x)
        if pred[0] == "u":
            f = st.facts.get(("less",) + ((self.key(a), self.key(b)) if pred in ("ult", "uge") else (self.key(b), self.key(a))))
            if f is not None:
                return f if pred in ("ult", "ugt") else neg(f)
        raise Unmodelled("order of unknown numbers")

    # ---- what the parts mean
    def absent(self, st, u):
        """decides that the part has no value"""
        if len(u) > 4 and u[4] is not None:
            return st.decide(u[4])
        k, f, v, vk = u[:4]
        if k == "field":
            return st.decide(icmp("ne", f, 0, 8))
        if k == "string_field":
            return st.decide(icmp("ne", f, 0, 8)) and st.decide(self.zeroness(st, v))
        return st.decide(self.zeroness(st, v))

    def equal_units(self, st, x, y):
        a, b = self.ident(x), self.ident(y)
        if a == b:
            return True
        e = st.facts.get(("equal", a, b)) or st.facts.get(("equal", b, a))
        if e is not None:
            return st.decide(e)
        if "raw" not in (x[0], y[0]):
            p, q = self.absent(st, x), self.absent(st, y)
            if p or q:
                return p == q
        elif x[0] != y[0] and self.absent(st, x if y[0] == "raw" else y):
            return False
        return st.decide(self.same(st, x[2], y[2]))

    def summaries(self, fn):
        """(operation, type, other type or None) of a function checked on its own"""
        if fn.name not in self.known_ops:
            r = None
            for f, own, op, args, X in operations(self.mod, self.ns, fn):
                ts = ([own] if own else []) + [norm(re.sub(r"( const)?&$", "", t)) for t in args]
                if op in ("empty", "equal", "eq", "ne", "swap", "clear", "assign") and all(self.types.kind(t) for t in ts):
                    r = op, ts[0], ts[1] if len(ts) > 1 else None
            self.known_ops[fn.name] = r
        return self.known_ops[fn.name]

    def put(self, st, X, p, src):
        """the parts of an object become those of another one, or nothing"""
        for name, k, ls in self.units(X):
            o, size, vk, T = ls[-1]
            f, v = src[name][1:3] if src else (1, None)
            if len(ls) == 2:
                self.m.store(st, self.m.padd(p, ls[0][0]), self.bit(f), ls[0][1])
            q = self.m.padd(p, o)
            if v is None:
                v = ("S", ()) if vk == "S" else ("D", 0) if vk == "f" else 0 if vk != "V" else ("V", st.alloc("seq", "cleared", x={"esize": self.types.elem_size(T), "n": 0}))
            elif vk == "V" and src:
                e = st.mem[v[1]]
                v = ("V", st.alloc("seq", "copy", x=dict(e.x, copyof=e.x.get("copyof", v[1]))))
            if vk in "SV":
                cell_set(self.m, st, q, v, size)
            else:
                self.m.store(st, q, v, size)

    def now(self, st, X, p):
        """the parts of an object in memory"""
        out = {}
        for name, k, ls in self.units(X):
            f = self.leaf(st, self.m.padd(p, ls[0][0]), "b", ls[0][1]) if len(ls) == 2 else None
            o, size, vk, _ = ls[-1]
            q = self.m.padd(p, o)
            v = self.content(st, q) if vk in "SV" else self.leaf(st, q, vk, size)
            out[name] = (k, f, v, vk, None)
        return out

    def identical(self, st, x, y):
        if x[1] is not None and self.bit(x[1]) != self.bit(y[1]) and self.known(st, self.bit(x[1])) != self.known(st, self.bit(y[1])):
            return False
        a, b = x[2], y[2]
        if type(a) is tuple and a[0] == "U" or type(b) is tuple and b[0] == "U":
            return False
        return st.decide(self.same(st, a, b)) if self.key(a) != self.key(b) or self.key(a) is None else True

    def bit(self, f):
        return cast("zext", f, 1, 8) if type(f) is tuple and width(f) == 1 else f

    # ---- the analysis
    def start(self):
        out = []
        for alias in ((0, 1) if self.op in ("swap", "equal", "eq", "ne", "assign") and self.same_type() else (0,)):
            out.append(self.start1(alias))
        return out

    def same_type(self):
        """both operands are of one type"""
        ts = ([self.own] if self.own else []) + [norm(re.sub(r"( const)?&$", "", t)) for t in self.args]
        return len(ts) == 2 and ts[0] == ts[1]

    def object(self, st, X, tag, fill=True):
        T = self.types
        i = st.alloc("heap", tag, max(T.size(X), 1))
        p = ("P", i, 0)
        if T.kind(X) == "entity":
            st = self.construct(st, X, p)
        return st, p

    def construct(self, st, X, p):
        last = X.split("::")[-1].split("<")[0]
        c = self.mod.find("^" + re.escape(X) + "::" + re.escape(last) + r"\(\)$")
        if not c:
            raise Unmodelled("no default constructor of " + X)
        f = ([f for f in c if "C1E" in f.name] or c)[0]
        self.m.call_function(st, f, [p])
        res = list(self.m.run(st))
        if len(res) != 1 or res[0].kind != "return":
            raise Unmodelled("default constructor of " + X)
        return res[0].st

    def start1(self, alias):
        st = State()
        g = st.ghost
        g["=go"], g["=alias"] = 0, alias
        ctor = self.op in ("make", "copy", "move", "from")
        objs = []
        args = []
        if self.own:
            X = self.own
            if ctor:
                p = ("P", st.alloc("heap", "object", max(self.types.size(X), 1)), 0)
                objs.append((X, p, None))
            else:
                st, p = self.object(st, X, "object")
                objs.append((X, p, "a"))
            args.append(p)
        for i, t in enumerate(self.args):
            X = norm(re.sub(r"( const)?(&&|&)?$", "", t))
            if alias and objs:
                args.append(objs[0][1])
                continue
            if t == "char const*":
                p = ("P", st.alloc("heap", "text", None), 0)
                objs.append((t, p, "b"))
            elif X == "bool" and not t.endswith("&"):
                objs.append((t, ("T", st.finsym("argument", 2), (0, 1), 1), "arg"))
                p = objs[-1][1]
            else:
                if self.types.kind(X) is None:
                    raise Unmodelled("argument of type " + t)
                st, p = self.object(st, X, "other" if objs else "object")
                objs.append((X, p, "b" if objs else "a"))
            args.append(p)
        g = st.ghost
        parts = []
        for X, p, tag in objs:
            if tag is None or tag == "arg":
                parts.append(([], None, tag))
            elif X == "char const*":
                parts.append(([("value", "raw", [(0, 32, "S", "std::string")])], None, tag))
            else:
                parts.append((self.units(X), p, tag))
        snaps = self.fill(st, parts)
        for (X, p, tag), s in zip(objs, snaps):
            if X == "char const*":
                st.mem[p[1]].x["ctext"] = (0, s["value"][2], None)
        st.facts["prefix"] = st.finsym("one container begins with the other", 2)
        g["#objs"] = tuple((X, p) for X, p, _ in objs)
        g["#snap"] = tuple(tuple(sorted(s.items())) for s in snaps)
        st.note("in", "%s on %s" % (self.op, "one object" if alias else "unknown objects"))
        self.m.call_function(st, self.entry, args)
        return st

    def resume(self, st, s):
        raise Unmodelled("a loop in an operation (%s)" % s.kind)

    def on_throw(self, st, exc):
        self.fail(st, "an exception escapes (%s)" % (exc[0],), "exception")

    def truth(self, st, val):
        if type(val) is tuple and val[0] == "U":
            self.fail(st, "no result", "value")
        w = 1 if type(val) is int else width(val)
        return st.decide(icmp("ne", val & 1 if type(val) is int else val, 0, w) if w > 1 else val if type(val) is tuple else val & 1)

    def unchanged(self, st, k, what):
        X, p = st.ghost["#objs"][k]
        if X == "char const*":
            return
        old, new = dict(st.ghost["#snap"][k]), self.now(st, X, p)
        for n in old:
            self.tick("parts")
            if not self.identical(st, old[n], new[n]):
                self.fail(st, "%s: %s" % (what, n), "value")

    def become(self, st, k, src, what):
        """object k has the parts of a snapshot"""
        X, p = st.ghost["#objs"][k]
        new = self.now(st, X, p)
        for n in new:
            if n in src:
                self.tick("parts")
                if not self.identical(st, src[n], new[n]):
                    self.fail(st, "%s: %s" % (what, n), "value")

    def report(self, st, v):
        if (v.info.get("rule") or "memory") == "memory":        # sizes are known as zero or not only
            self.problem(Unmodelled(v.what), st)
        else:
            Codec.report(self, st, v)

    def sizes(self, st):
        """the code may have compared a size with zero as a number"""
        for k, (kind, _) in [(k[1], v) for k, v in st.facts.items() if k[0] == "atom"]:
            if kind == "n":
                lo, hi = st.dom[k][:2]
                if hi == 0 and not st.decide(st.facts["zero", k]) or lo and lo > 0 and st.decide(st.facts["zero", k]):
                    raise Infeasible()

    def on_return(self, st, val):
        self.sizes(st)
        g, op = st.ghost, self.op
        snaps = [dict(s) for s in g["#snap"]]
        alias = g["=alias"]
        if alias:
            snaps = [snaps[0], snaps[0]]
        n = len(g["#objs"])
        short = self.own_name()
        self.tick("operations")
        if op == "empty":
            r = self.truth(st, val)
            self.unchanged(st, 0, "empty() changes the object")
            for name, u in snaps[0].items():
                self.tick("parts")
                if not self.absent(st, u):
                    if r:
                        self.fail(st, "a %s with a value for %s is said to be empty" % (short, name), "empty")
                    return ()
            if not r:
                self.fail(st, "a %s without values is said not to be empty" % short, "empty")
        elif op == "clear":
            X, p = g["#objs"][0]
            for name, u in self.now(st, X, p).items():
                self.tick("parts")
                k, f, v, vk = u[:4]
                if type(v) is tuple and v[0] == "U" or not (st.decide(self.zeroness(st, v)) and (f is None or st.decide(icmp("ne", self.bit(f), 0, 8)))):
                    self.fail(st, "%s still has a value after clear()" % name, "clear")
        elif op in ("equal", "eq", "ne"):
            r = self.truth(st, val)
            if op == "ne":
                r = not r
            for k in range(n):
                self.unchanged(st, k, "a comparison changes the object")
            if op != "equal" and not alias and len(snaps[0]) == 1 and len(snaps[1]) == 1 and next(iter(snaps[0].values()))[0] != next(iter(snaps[1].values()))[0]:
                # a field with a value
                self.tick("parts")
                x, y = next(iter(snaps[0].values())), next(iter(snaps[1].values()))
                e = self.equal_units(st, x, y)
                if e != r:
                    self.fail(st, "a field is said %sto be equal to a value" % ("" if r else "not "), "equal")
                return ()
            for name in snaps[0]:
                self.tick("parts")
                if not alias and not self.equal_units(st, snaps[0][name], snaps[1][name]):
                    if r:
                        self.fail(st, "objects that differ in %s are said to be equal" % name, "equal")
                    return ()
            if not r:
                self.fail(st, "equal objects are said to differ", "equal")
        elif op == "swap":
            if len(snaps) > 1 and snaps[0].keys() == snaps[1].keys() and next(iter(snaps[0].values()), (0,))[0] != next(iter(snaps[1].values()), (0,))[0]:
                self.tick("parts")
                x, y = next(iter(snaps[0].values())), next(iter(snaps[1].values()))
                self.become(st, 0, {"value": (x[0], 0, y[2], x[3])}, "after swap with a value, the field does not have it")
                self.become(st, 1, {"value": (y[0], None, x[2], y[3])}, "after swap with a field, the value is not that of the field")
            elif alias:
                self.unchanged(st, 0, "swap with itself changes the object")
            else:
                self.become(st, 0, snaps[1], "after swap, the first object does not have the value of the second")
                self.become(st, 1, snaps[0], "after swap, the second object does not have the value of the first")
        elif op in ("assign", "copy", "move", "massign", "from"):
            if op in ("assign", "copy"):
                self.unchanged(st, n - 1, "the source is changed by a copy")
            src = snaps[-1]
            X = g["#objs"][0][0]
            us = self.units(X)
            if not alias and len(us) == 1 and us[0][1] in ("field", "string_field") and "value" in src and src["value"][0] == "raw":
                s = src["value"]
                src = {"value": (us[0][1], 0, s[2], s[3])}
            self.become(st, 0, src, "the copy does not have the value of the source")
            if "assign" in op and type(val) is tuple and val[0] == "P" and val != g["#objs"][0][1]:
                self.fail(st, "the assignment does not return the object", "value")
        elif op == "make":
            X, p = g["#objs"][0]
            for name, (k, f, v, vk, _) in self.now(st, X, p).items():
                self.tick("parts")
                if type(v) is tuple and v[0] == "U" or not (st.decide(self.zeroness(st, v)) and (f is None or st.decide(icmp("ne", self.bit(f), 0, 8)))):
                    self.fail(st, "%s has a value in a new object" % name, "clear")
        elif op == "setnull":
            X, p = g["#objs"][0]
            u = self.now(st, X, p)["value"]
            old = snaps[0]["value"]
            arg = st.decide(g["#objs"][1][1])
            self.tick("parts")
            if arg and not self.absent(st, u):
                self.fail(st, "the field has a value after it was set to null", "clear")
            if not arg and not self.identical(st, (u[0], 0, old[2], u[3]), u):
                self.fail(st, "the field does not keep its value", "value")
        elif op == "value":
            self.unchanged(st, 0, "reading the value changes the object")
            k, f, v, vk = snaps[0]["value"][:4]
            if type(val) is tuple and val[0] == "P":
                if val != self.m.padd(g["#objs"][0][1], self.units(self.own)[0][2][-1][0]):
                    self.fail(st, "another value is returned", "value")
            elif not st.decide(self.same(st, val if vk != "b" or type(val) is int or width(val) == 8 else cast("zext", val, 1, 8), v)):
                self.fail(st, "another value is returned", "value")
        return ()

    def own_name(self):
        return (self.X or self.own).split("::")[-1]


def signature(dem):
    """(qualified name, [argument types]) of a demangled function"""
    s = dem[:-6] if dem.endswith(" const") else dem
    if not s.endswith(")"):
        return None
    d = 0
    for j in range(len(s) - 1, -1, -1):
        if s[j] in ")>":
            d += 1
        elif s[j] in "(<":
            d -= 1
            if d == 0:
                break
    name, args = s[:j], s[j + 1:-1]
    out, d, b = [], 0, 0
    for k, c in enumerate(args):
        if c in "<(":
            d += 1
        elif c in ">)":
            d -= 1
        elif c == "," and d == 0:
            out.append(args[b:k].strip())
            b = k + 1
    if args:
        out.append(args[b:].strip())
    return name, out


def split_name(n):
    """(class, member) of a qualified name"""
    if "::operator" in n:
        i = n.rindex("::operator")
        return n[:i], n[i + 2:]
    d = 0
    for j in range(len(n) - 1, 0, -1):
        if n[j] in ">)":
            d += 1
        elif n[j] in "<(":
            d -= 1
        elif n[j] == ":" and d == 0:
            return n[:j - 1], n[j + 1:]
    return "", n


def operations(mod, ns, only=None):
    """the operations of the module: yields (function, class of the object or None, operation, argument types, type)"""
    T = Types(mod, ns)
    seen = set()
    for nm, f in [(only.name, only)] if only else sorted(mod.funcs.items(), key=lambda kv: (kv[1].dem, kv[0])):
        if not f.blocks or "D0E" in nm or "D1E" in nm or "D2E" in nm:
            continue
        s = signature(f.dem)
        if s is None:
            continue
        name, args = s
        name = re.sub(r"^(bool|void|int) ", "", name)
        cls, mem = split_name(name)
        cls = norm(cls)
        if cls.startswith("std::"):
            continue
        if f.dem in seen:
            continue
        if cls.startswith(ns + "::json<") and mem in ("empty", "clear", "equal", "swap"):
            X = norm(re.sub(r"( const)?&$", "", args[0]))
            k = T.kind(X)
            if k is None or len(args) != (1 if mem in ("empty", "clear") else 2):
                continue
            if k == "number" and X in ("double", "float") and mem in ("empty", "equal"):
                continue            # within the rounding of the text; not used for fields
            seen.add(f.dem)
            yield f, None, mem, args, X
            continue
        own = None
        k = T.kind(cls)
        if k in ("field", "string_field", "message", "entity") and not cls.startswith(ns + "::message<") and not (k == "entity" and cls.startswith(ns + "::")):
            own = cls
        elif cls.startswith(ns + "::message<") and mem in ("operator==", "operator!="):
            # called through the objects that derive from it
            for E, t in sorted(T.t.items()):
                if any(norm(b) == cls for b, o in t.get("bases", ())):
                    own = E
        if own is None:
            continue
        last = cls.split("::")[-1].split("<")[0]
        op = None
        a0 = norm(args[0]) if args else ""
        if mem == last:
            op = "make" if not args else "copy" if a0 == cls + " const&" else "move" if a0 == cls + "&&" else "from" if len(args) == 1 else None
        elif mem == "operator=":
            op = "massign" if a0.endswith("&&") else "assign"
        elif mem in ("operator==", "operator!="):
            op = {"operator==": "eq", "operator!=": "ne"}[mem]
        elif mem in ("empty", "clear", "equal", "swap"):
            op = "setnull" if mem == "empty" and args else mem
        elif mem == "operator*" or mem.startswith("operator ") and not args and k in ("field", "string_field"):
            op = "value"
        if op is None:
            continue
        seen.add(f.dem)
        yield f, own, op, args, cls
