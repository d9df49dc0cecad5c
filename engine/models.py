"""Meaning of the C and C++ library functions used by the analysed program."""
import re
from .vals import *
from .interp import *

MODELS = []


def model(*pats):
    def deco(f):
        for p in pats:
            MODELS.append((re.compile(p), f))
        return f
    return deco


# ------------------------------------------------------------------ cells holding library objects

def cell_get(m, st, p):
    """content of the library object at address p: (value, size) or None"""
    if type(p) is tuple and p[0] == "Q":
        if not st.decide(fin_flag(p[1])):
            raise Violation("null pointer dereference")
        p = p[2]
    if type(p) is int:
        raise Violation("null pointer dereference" if p == 0 else "wild pointer")
    if p[0] != "P":
        raise Unmodelled("library object at %r" % (p,))
    o = st.mem.get(p[1])
    if o is None:
        raise Unmodelled("dead object")
    if o.kind == "seq":
        idx, f = m.seq_split(st, p, o.x["esize"])
        c = m.env_seq_elem(st, p[1], idx)
        r = c.get(f)
        if r is None and o.x.get("elazy"):
            v = o.x["elazy"](m, st, p[1], idx, f, 0, "object")
            if v is not None:
                cell_set(m, st, p, v, 32)
                return (v, 32)
        return r
    off = st.concrete(p[2])
    if type(off) is not int:
        raise Unmodelled("library object at a variable offset of " + o.name)
    off = sgn(off, 64)
    c = o.cells.get(off)
    if c is None and o.lazy is not None:
        v = o.lazy(m, st, p[1], off, 0, "object")
        if v is not None:
            st.wobj(p[1]).cells[off] = (v, 32)
            return (v, 32)
    return c


def cell_set(m, st, p, v, size):
    if type(p) is tuple and p[0] == "Q":
        if not st.decide(fin_flag(p[1])):
            raise Violation("null pointer dereference")
        p = p[2]
    if type(p) is not tuple or p[0] != "P":
        raise Violation("wild pointer")
    o = st.mem[p[1]]
    if o.kind == "seq":
        idx, f = m.seq_split(st, p, o.x["esize"])
        o = st.wobj(p[1])
        c = dict(o.x.get(("e", idx), {}))
        c[f] = (v, size)
        o.x["e", idx] = c
        return
    off = st.concrete(p[2])
    if type(off) is not int:
        raise Unmodelled("library object at a variable offset of " + o.name)
    off = sgn(off, 64)
    o = st.wobj(p[1])
    for co in [co for co in o.cells if type(co) is int and off < co < off + size]:
        del o.cells[co]
    o.cells[off] = (v, size)


def cell_del(m, st, p):
    if type(p) is not tuple or p[0] != "P":
        return
    o = st.mem.get(p[1])
    if o is None or o.kind == "seq":
        return
    off = st.concrete(p[2])
    if type(off) is int:
        o = st.wobj(p[1])
        o.cells.pop(sgn(off, 64), None)


# ------------------------------------------------------------------ strings

def getS(m, st, p):
    c = cell_get(m, st, p)
    if c is None:
        raise Unmodelled("string without a known content at %s" % show(p))
    v = c[0]
    if type(v) is not tuple or v[0] != "S":
        if type(v) is tuple and v[0] in ("U", "?"):
            raise Unmodelled("string without a known content")
        raise Unmodelled("string expected, found %r" % (v,))
    return v


def setS(m, st, p, v, size=32):
    if m.monitor is not None and hasattr(m.monitor, "on_string"):
        m.monitor.on_string(m, st, p, v)
    cell_set(m, st, p, v, size)


def piece_len(p):
    if p[0] == "k":
        return len(p[1])
    if p[0] == "b":
        return 1
    if p[0] == "t":
        return lin_add(p[3], p[2], 64, -1)
    if p[0] == "v":
        return lin(p[1])
    raise Unmodelled("length of a %s piece" % p[0])


def s_len(v):
    n = 0
    for p in v[1]:
        n = lin_add(n, piece_len(p), 64)
    return n


def s_atoms(v):
    """pieces with the constants split in bytes"""
    out = []
    for p in v[1]:
        if p[0] == "k":
            out += [("b", x) for x in p[1]]
        else:
            out.append(p)
    return out


def s_at(m, st, v, idx):
    """element idx of a string"""
    base = 0
    for p in v[1]:
        n = piece_len(p)
        end = lin_add(base, n, 64)
        if st.decide(icmp("slt", idx, end, 64)):
            k = lin_add(idx, base, 64, -1)
            if p[0] == "k":
                if type(k) is int:
                    return p[1][k]
                raise Unmodelled("variable index in a constant")
            if p[0] == "b":
                return p[1]
            if p[0] == "t":
                c = m.env_seq_elem(st, p[1], lin_add(p[2], k, 64))
                return c[0][0]
            raise Suspend("vbyte", (p[1], k))
        base = end
    raise Violation("read past the end of a string")


def view(m, st, v, owner=None):
    """a sequence object whose elements are the bytes of the string"""
    if len(v[1]) == 1 and v[1][0][0] == "t" and v[1][0][2] == 0 and v[1][0][3] == st.mem[v[1][0][1]].x["n"]:
        return v[1][0][1]
    for i, o in st.mem.items():
        if o.kind == "seq" and o.x.get("pieces") == v and o.x.get("owner") == owner:
            return i
    return st.alloc("seq", "string", x={"esize": 1, "n": s_len(v), "pieces": v, "cstr": True, "owner": owner})


def cstr(m, st, p, limit=None):
    """contents of a C string"""
    if type(p) is tuple and p[0] == "Q":
        if not st.decide(fin_flag(p[1])):
            raise Violation("null pointer used as a C string")
        p = p[2]
    if type(p) is int:
        raise Violation("null pointer used as a C string")
    if p[0] != "P":
        raise Unmodelled("C string at %r" % (p,))
    o = st.mem[p[1]]
    if o.kind == "seq":
        idx, f = m.seq_split(st, p, o.x["esize"])
        if "pieces" in o.x and type(idx) is int:
            at = s_atoms(o.x["pieces"])
            if idx == 0:
                v = o.x["pieces"]
            elif all(a[0] == "b" for a in at[:idx]):
                v = ("S", s_flat(tuple(at[idx:])))
            else:
                raise Unmodelled("C string inside a string")
            return cut_zero(m, st, v)
        if o.x.get("cstr"):
            return ("S", (("t", p[1], idx, o.x["n"]),))
        raise Unmodelled("C string in a sequence")
    off = st.concrete(p[2])
    if type(off) is not int:
        raise Unmodelled("C string at a variable offset")
    if "ctext" in o.x:      # text of a length that is not known, written by snprintf
        start, text, top = o.x["ctext"]
        if start == off:
            if any(type(c) is int and start <= c < start + top for c in o.cells):
                raise Unmodelled("a text that was changed")
            return text
    out = []
    k = sgn(off, 64)
    while True:
        if limit is not None and len(out) >= limit:
            break
        b = m.load(st, ("P", p[1], k), "i8")
        if type(b) is tuple and b[0] == "U":
            raise Violation("C string read from uninitialised memory in '%s'" % o.name)
        if st.decide(icmp("eq", b, 0, 8)):
            break
        out.append(("b", b))
        k += 1
    return s_canon(("S", tuple(out)))


def cut_zero(m, st, v):
    """the part of a string before its first zero byte"""
    out = []
    for p in v[1]:
        if p[0] == "k":
            k = p[1].find(b"\0")
            if k >= 0:
                out.append(("k", p[1][:k]))
                return ("S", s_flat(tuple(out)))
        elif p[0] == "b":
            if st.decide(icmp("eq", p[1], 0, 8)):
                return ("S", s_flat(tuple(out)))
        out.append(p)
    return ("S", s_flat(tuple(out)))


KEYWORDS = set()     # constants that an opaque ('nk') text is known to differ from


def streq(m, st, a, b):
    """equality of two strings as an i1 value"""
    a, b = s_canon(a), s_canon(b)
    if a == b:
        return 1
    ba, bb = s_bytes(a), s_bytes(b)
    if ba is not None and bb is not None:
        return int(ba == bb)
    for x, y in ((a, bb), (b, ba)):
        if y is not None:
            for p in x[1]:
                if p[0] == "v" and ("nk", p[1]) in st.facts:
                    if y in KEYWORDS or not y:
                        return 0
                if p[0] == "v" and ("not", p[1], y) in st.facts and len(x[1]) == 1:
                    return 0
    xa, xb = s_atoms(a), s_atoms(b)
    while xa and xb and xa[0] == xb[0]:
        xa.pop(0)
        xb.pop(0)
    while xa and xb and xa[-1] == xb[-1]:
        xa.pop()
        xb.pop()
    if not xa and not xb:
        return 1
    # lengths
    la, lb = s_len(("S", tuple(xa))), s_len(("S", tuple(xb)))
    d = lin_add(la, lb, 64, -1)
    neg, zero, pos = (d < 0, d == 0, d > 0) if type(d) is int else st.linear_sign(d)
    if type(d) is int:
        zero = d == 0
    if not zero:
        return 0
    # aligned bytes
    conds = []
    i = 0
    while i < len(xa) and i < len(xb) and xa[i][0] == "b" and xb[i][0] == "b":
        conds.append(icmp("eq", xa[i][1], xb[i][1], 8))
        i += 1
    for c in conds:
        if not st.decide(c):
            return 0
    if i == len(xa) and i == len(xb):
        return 1
    ra, rb = ("S", s_flat(tuple(xa[i:]))), ("S", s_flat(tuple(xb[i:])))
    if repr(ra) > repr(rb):
        ra, rb = rb, ra
    return ("X", "streq", s_canon(ra), s_canon(rb), 1)


def byteval(v):
    """an i8 value from a call argument"""
    return v & 255 if type(v) is int else v


def piece_of(v):
    return ("k", bytes([v & 255])) if type(v) is int else ("b", v)


ST = r"^std::string::"


@model(ST + r"basic_string\(\)$", r"^std::vector<(unsigned )?char[ ,>].*::vector\(\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], s_const(b""), ssize(fn))


def ssize(fn):
    return 24 if fn.dem.startswith("std::vector") else 32


@model(ST + r"basic_string\(std::string const&\)$", ST + r"basic_string\(std::string const&, std::allocator<char> const&\)$",
       r"^std::vector<(unsigned )?char[ ,>][^:]*::[^:]*::vector\(std::vector<(unsigned )?char[ ,>].* const&\)$",
       r"^std::vector<(unsigned )?char, std::allocator<(unsigned )?char>>::vector\(std::vector<.* const&\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], getS(m, st, a[1]), ssize(fn))


@model(ST + r"basic_string\(std::string&&\)$", r"^std::vector<(unsigned )?char, std::allocator<(unsigned )?char>>::vector\(std::vector<.*&&\)$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[1])
    setS(m, st, a[1], s_const(b""), ssize(fn))
    setS(m, st, a[0], v, ssize(fn))


@model(ST + r"basic_string(<std::allocator<char>, void>|<void>)?\(char const\*, std::allocator<char> const&\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], cstr(m, st, a[1]))


@model(ST + r"basic_string\(char const\*, unsigned long, std::allocator<char> const&\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], mem_bytes(m, st, a[1], a[2]))


def mem_bytes(m, st, p, n):
    if type(n) is not int:
        if type(p) is tuple and p[0] == "P" and st.mem[p[1]].kind == "seq" and "pieces" not in st.mem[p[1]].x:
            idx, f = m.seq_split(st, p, 1)
            end = lin_add(idx, n, 64)
            if not st.decide(icmp("sle", end, st.mem[p[1]].x["n"], 64)):
                raise Violation("read past the end of a sequence")
            return ("S", s_flat((("t", p[1], idx, end),)))
        o = st.mem[p[1]] if type(p) is tuple and p[0] == "P" else None
        if o is not None and o.kind == "seq" and "pieces" in o.x and p[2] == 0 and o.x["n"] == n:
            return o.x["pieces"]
        raise Unmodelled("a block of variable size")
    out = []
    for k in range(n):
        b = m.load(st, m.padd(p, k), "i8")
        if type(b) is tuple and b[0] == "U":
            raise Violation("uninitialised memory read")
        out.append(("b", b))
    return s_canon(("S", tuple(out)))


@model(ST + r"basic_string\(unsigned long, char, std::allocator<char> const&\)$")
def _(m, st, fn, a, ins):
    if type(a[1]) is not int:
        raise Unmodelled("string of variable size")
    setS(m, st, a[0], ("S", s_flat(tuple([piece_of(byteval(a[2]))] * a[1]))))


@model(ST + r"basic_string\(std::string const&, unsigned long, unsigned long\)$", ST + r"substr\(unsigned long, unsigned long\) const$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[1])
    setS(m, st, a[0], s_sub(m, st, v, a[2], a[3]))


def s_sub(m, st, v, pos, n):
    ln = s_len(v)
    if not st.decide(icmp("sle", pos, ln, 64)):
        raise Throw("_ZTISt12out_of_range")
    end = ln
    if n != mk(64, -1):
        e2 = lin_add(pos, n, 64)
        if e2 is not None and st.decide(icmp("slt", e2, ln, 64)):
            end = e2
    return s_slice(m, st, v, pos, end)


def s_slice(m, st, v, s, e):
    out = []
    base = 0
    for p in v[1]:
        n = piece_len(p)
        pe = lin_add(base, n, 64)
        # intersection of [s,e) with [base,pe)
        if st.decide(icmp("sle", pe, s, 64)) or st.decide(icmp("sge", base, e, 64)):
            base = pe
            continue
        a = s if st.decide(icmp("sgt", s, base, 64)) else base
        b = e if st.decide(icmp("slt", e, pe, 64)) else pe
        ra, rb = lin_add(a, base, 64, -1), lin_add(b, base, 64, -1)
        if ra == 0 and rb == n:
            out.append(p)
        elif p[0] == "k" and type(ra) is int and type(rb) is int:
            out.append(("k", p[1][ra:rb]))
        elif p[0] == "t":
            out.append(("t", p[1], lin_add(p[2], ra, 64), lin_add(p[2], rb, 64)))
        else:
            size = lin_add(rb, ra, 64, -1)
            if p[0] != "v" or type(size) is not int:
                raise Unmodelled("part of a string")
            k = ("part", p, ra, rb)
            x = st.facts.get(k)
            if x is None or x not in st.dom:
                x = st.facts[k] = st.widesym("part of a text", size, size)
            out.append(("v", x))
        base = pe
    return ("S", s_flat(tuple(out)))


@model(ST + r"~basic_string\(\)$", r"^std::vector<(unsigned )?char, std::allocator<(unsigned )?char>>::~vector\(\)$")
def _(m, st, fn, a, ins):
    cell_del(m, st, a[0])


@model(ST + r"(operator=|assign)\(std::string const&\)$", r"^std::vector<(unsigned )?char, .*::operator=\(std::vector<.* const&\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], getS(m, st, a[1]), ssize(fn))
    return a[0]


@model(ST + r"(operator=|assign)\(std::string&&\)$", r"^std::vector<(unsigned )?char, .*::operator=\(std::vector<.*&&\)$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[1])
    setS(m, st, a[1], s_const(b""), ssize(fn))
    setS(m, st, a[0], v, ssize(fn))
    return a[0]


@model(ST + r"(operator=|assign)\(char const\*\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], cstr(m, st, a[1]))
    return a[0]


@model(ST + r"operator=\(char\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], ("S", (piece_of(byteval(a[1])),)))
    return a[0]


@model(ST + r"assign\(unsigned long, char\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], ("S", s_flat(tuple([piece_of(byteval(a[2]))] * a[1]))))
    return a[0]


@model(ST + r"(operator\+=|append)\(std::string const&\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], s_cat(getS(m, st, a[0]), getS(m, st, a[1])))
    return a[0]


@model(ST + r"append\(std::string const&, unsigned long, unsigned long\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], s_cat(getS(m, st, a[0]), s_sub(m, st, getS(m, st, a[1]), a[2], a[3])))
    return a[0]


@model(ST + r"(operator\+=|append)\(char const\*\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], s_cat(getS(m, st, a[0]), cstr(m, st, a[1])))
    return a[0]


@model(ST + r"(append|assign)\(char const\*, unsigned long\)$")
def _(m, st, fn, a, ins):
    pre = getS(m, st, a[0]) if "append" in fn.dem else s_const(b"")
    setS(m, st, a[0], s_cat(pre, mem_bytes(m, st, a[1], a[2])))
    return a[0]


@model(ST + r"append\(unsigned long, char\)$")
def _(m, st, fn, a, ins):
    if type(a[1]) is not int:
        raise Unmodelled("append of a variable count")
    setS(m, st, a[0], s_cat(getS(m, st, a[0]), ("S", s_flat(tuple([piece_of(byteval(a[2]))] * a[1])))))
    return a[0]


@model(ST + r"operator\+=\(char\)$", ST + r"push_back\(char\)$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[0])
    b = byteval(a[1])
    if type(b) is tuple and b[0] == "U":
        raise Violation("uninitialised value appended to a string")
    setS(m, st, a[0], ("S", s_flat(v[1] + (piece_of(b),))))
    return a[0]


@model(ST + r"operator\+=\(std::initializer_list<char>\)$", ST + r"append\(std::initializer_list<char>\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], s_cat(getS(m, st, a[0]), mem_bytes(m, st, a[1], a[2])))
    return a[0]


@model(r"^std::vector<(unsigned )?char, .*::(push_back|emplace_back)(<.*>)?\(.*\)$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[0])
    b = m.load(st, a[1], "i8")
    setS(m, st, a[0], ("S", s_flat(v[1] + (piece_of(b),))), 24)
    return a[0]


@model(ST + r"pop_back\(\)$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[0])
    at = s_atoms(v)
    if not at or at[-1][0] != "b":
        raise Unmodelled("pop_back")
    setS(m, st, a[0], s_canon(("S", tuple(at[:-1]))))


@model(ST + r"(clear)\(\)$", r"^std::vector<(unsigned )?char, .*::clear\(\)$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], s_const(b""), ssize(fn))


@model(ST + r"resize\(unsigned long(, char)?\)$", r"^std::vector<(unsigned )?char, .*::resize\(unsigned long\)$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[0])
    n = s_len(v)
    if type(a[1]) is int and a[1] == 0:
        setS(m, st, a[0], s_const(b""), ssize(fn))
        return
    if st.decide(icmp("sle", a[1], n, 64)):
        setS(m, st, a[0], s_slice(m, st, v, 0, a[1]), ssize(fn))
        return
    k = lin_add(a[1], n, 64, -1)
    if type(k) is not int:
        raise Unmodelled("resize")
    fill = byteval(a[2]) if len(a) > 2 else 0
    setS(m, st, a[0], ("S", s_flat(v[1] + tuple([piece_of(fill)] * k))), ssize(fn))


@model(ST + r"(reserve|shrink_to_fit)\(.*\)$", r"^std::vector<.*::(reserve|shrink_to_fit)\(.*\)$")
def _(m, st, fn, a, ins):
    return None


@model(ST + r"(size|length)\(\) const$", r"^std::vector<(unsigned )?char, .*::size\(\) const$")
def _(m, st, fn, a, ins):
    return s_len(getS(m, st, a[0]))


@model(ST + r"empty\(\) const$", r"^std::vector<(unsigned )?char, .*::empty\(\) const$")
def _(m, st, fn, a, ins):
    return icmp("eq", s_len(getS(m, st, a[0])), 0, 64)


@model(ST + r"(c_str|data)\(\)( const)?$", ST + r"c?begin\(\)( const)?$", r"^std::vector<(unsigned )?char, .*::(data|c?begin)\(\)( const)?$")
def _(m, st, fn, a, ins):
    return ("P", view(m, st, getS(m, st, a[0]), a[0]), 0)


@model(ST + r"c?end\(\)( const)?$", r"^std::vector<(unsigned )?char, .*::c?end\(\)( const)?$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[0])
    return ("P", view(m, st, v, a[0]), s_len(v))


@model(ST + r"(operator\[\]|at)\(unsigned long\)( const)?$", r"^std::vector<(unsigned )?char, .*::(operator\[\]|at)\(unsigned long\)( const)?$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[0])
    n = s_len(v)
    if "::at(" in fn.dem:
        if not st.decide(icmp("ult", a[1], n, 64)):
            raise Throw("_ZTISt12out_of_range")
    else:
        ok = st.decide(icmp("ult", a[1], n, 64))
        if not ok and not (fn.dem.startswith("std::string") and st.decide(icmp("eq", a[1], n, 64))):
            raise Violation("index %s outside of a %s of size %s" % (show(a[1]), "string" if fn.dem.startswith("std::string") else "vector", show(n)))
    return ("P", view(m, st, v, a[0]), a[1])


@model(ST + r"(front)\(\)( const)?$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[0])
    if st.decide(icmp("eq", s_len(v), 0, 64)):
        raise Violation("front() of an empty string")
    return ("P", view(m, st, v, a[0]), 0)


@model(ST + r"(back)\(\)( const)?$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[0])
    if st.decide(icmp("eq", s_len(v), 0, 64)):
        raise Violation("back() of an empty string")
    return ("P", view(m, st, v, a[0]), lin_add(s_len(v), 1, 64, -1))


@model(ST + r"swap\(std::string&\)$", r"^std::vector<(unsigned )?char, .*::swap\(.*\)$",
       r"^void std::swap<char, .*>\(std::string&, std::string&\)$", r"^void std::swap<(unsigned )?char, .*>\(std::vector<(unsigned )?char.*\)$")
def _(m, st, fn, a, ins):
    x, y = getS(m, st, a[0]), getS(m, st, a[1])
    sz = 24 if "vector" in fn.dem else 32
    setS(m, st, a[0], y, sz)
    setS(m, st, a[1], x, sz)


@model(r"^bool std::operator([!=])=<char, .*>\(std::string const&, (char const\*|std::string const&)\)$",
       r"^bool std::operator([!=])=<char, .*>\(char const\*, std::string const&\)$",
       r"^bool std::operator([!=])=<(unsigned )?char, .*>\(std::vector<(unsigned )?char.*\)$")
def _(m, st, fn, a, ins):
    args = fn.dem[fn.dem.index("("):]
    x = cstr(m, st, a[0]) if args.startswith("(char const*") else getS(m, st, a[0])
    y = cstr(m, st, a[1]) if args.endswith("char const*)") else getS(m, st, a[1])
    r = streq(m, st, x, y)
    return negate(r) if "operator!=" in fn.dem else r


@model(ST + r"compare\((char const\*|std::string const&)\) const$")
def _(m, st, fn, a, ins):
    y = cstr(m, st, a[1]) if "char const*" in fn.dem else getS(m, st, a[1])
    r = streq(m, st, getS(m, st, a[0]), y)
    if st.decide(r):
        return 0
    f = ("X", "strlt", getS(m, st, a[0]), y, 1)
    return mk(32, -1) if st.decide(f) else 1


@model(r"^bool std::operator<<char, .*>\(std::string const&, std::string const&\)$")
def _(m, st, fn, a, ins):
    x, y = getS(m, st, a[0]), getS(m, st, a[1])
    bx, by = s_bytes(x), s_bytes(y)
    if bx is not None and by is not None:
        return int(bx < by)
    return ("X", "strlt", x, y, 1)


@model(ST + r"compare\(unsigned long, unsigned long, (char const\*|std::string const&)\) const$")
def _(m, st, fn, a, ins):
    y = cstr(m, st, a[3]) if "char const*" in fn.dem else getS(m, st, a[3])
    r = streq(m, st, s_sub(m, st, getS(m, st, a[0]), a[1], a[2]), y)
    return 0 if st.decide(r) else 1


@model(r"^std::string std::operator\+<char, ")
def _(m, st, fn, a, ins):
    args = split_args(fn.dem)
    vs = []
    for k, t in enumerate(args):
        p = a[k + 1]
        if t == "char":
            vs.append(("S", (piece_of(byteval(p)),)))
        elif t.startswith("char const*"):
            vs.append(cstr(m, st, p))
        else:
            vs.append(getS(m, st, p))
    setS(m, st, a[0], s_cat(*vs))


def split_args(dem):
    """types of the parameters in a demangled name"""
    depth = 0
    # last top level parenthesis group
    end = dem.rindex(")")
    k = end
    while k >= 0:
        c = dem[k]
        if c in ")>]":
            depth += 1
        elif c in "(<[":
            depth -= 1
            if depth == 0:
                break
        k -= 1
    body = dem[k + 1:end]
    out, cur, d = [], "", 0
    for c in body:
        if c in "<([":
            d += 1
        elif c in ">)]":
            d -= 1
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


@model(r"^std::to_string\((int|long|unsigned int|unsigned long|long long|unsigned long long)\)$")
def _(m, st, fn, a, ins):
    t = split_args(fn.dem)[0]
    w = 32 if t in ("int", "unsigned int") else 64
    v = a[1]
    if type(v) is int:
        x = mk(w, v) if t.startswith("unsigned") else sgn(mk(w, v), w)
        setS(m, st, a[0], s_const(str(x).encode()))
        return
    key = ("num", v, t)
    setS(m, st, a[0], ("S", (num_piece(st, key),)))


def num_piece(st, key):
    """opaque text for the decimal form of a value; the same text for the same value"""
    k = ("numtext", key)
    s = st.facts.get(k)
    if s is None:
        s = st.widesym("text of a number", 1, 40)
        st.facts[k] = s
        st.facts[("numof", s)] = key
    return ("v", s)


@model(ST + r"find\(char, unsigned long\) const$", ST + r"find\((char const\*|std::string const&), unsigned long\) const$",
       ST + r"find_first_of\((char|char const\*), unsigned long\) const$", ST + r"rfind\(.*\) const$", ST + r"find_first_not_of\(.*\) const$",
       ST + r"find_last_of\(.*\) const$")
def _(m, st, fn, a, ins):
    v = getS(m, st, a[0])
    b = s_bytes(v)
    t = split_args(fn.dem)[0]
    if t == "char":
        y = bytes([a[1]]) if type(a[1]) is int else None
    elif t.startswith("char const*"):
        y = s_bytes(cstr(m, st, a[1]))
    else:
        y = s_bytes(getS(m, st, a[1]))
    name = re.search(r"::(r?find\w*)\(", fn.dem).group(1)
    pos = a[2]
    if b is not None and y is not None and type(pos) is int:
        if name == "find":
            r = b.find(y, pos)
        elif name == "rfind":
            r = b.rfind(y) if pos == mk(64, -1) else b[:pos + len(y)].rfind(y)
        elif name == "find_first_of":
            r = next((k for k in range(pos, len(b)) if b[k] in y), -1)
        elif name == "find_first_not_of":
            r = next((k for k in range(pos, len(b)) if b[k] not in y), -1)
        else:
            r = next((k for k in range(len(b) - 1, -1, -1) if b[k] in y), -1)
        return mk(64, r)
    if m.env is not None and hasattr(m.env, "find"):
        return m.env.find(m, st, name, v, y, pos)
    if y is not None:
        f = st.facts.get(("find", name, v, y, pos))
        if f is None or not all(x in st.dom for t in f for x in ((t[1],) if type(t) is tuple else (t,))):
            flag = st.flag("found %r" % y)
            at = st.widesym("position of %r" % y, 0)
            st.facts[("find", name, v, y, pos)] = f = (flag, at)
        return lin(f[1]) if st.decide(f[0]) else mk(64, -1)
    raise Unmodelled(name + " on an unknown string")


# ------------------------------------------------------------------ C functions

@model(r"^strlen$")
def _(m, st, fn, a, ins):
    return s_len(cstr(m, st, a[0]))


@model(r"^strcmp$")
def _(m, st, fn, a, ins):
    return 0 if st.decide(streq(m, st, cstr(m, st, a[0]), cstr(m, st, a[1]))) else 1


@model(r"^strncmp$")
def _(m, st, fn, a, ins):
    if type(a[2]) is not int:
        raise Unmodelled("strncmp")
    return 0 if st.decide(streq(m, st, cstr(m, st, a[0], a[2]), cstr(m, st, a[1], a[2]))) else 1


@model(r"^strchr$", r"^memchr$")
def _(m, st, fn, a, ins):
    p = a[0]
    k = 0
    if fn.dem == "memchr" and type(a[2]) is not int:
        raise Unmodelled("memchr")
    while True:
        if fn.dem == "memchr" and k >= a[2]:
            return 0
        q = m.padd(p, k)
        b = m.load(st, q, "i8")
        c = cast("trunc", a[1], 32, 8)
        if st.decide(icmp("eq", b, c, 8)):
            return q
        if fn.dem == "strchr" and st.decide(icmp("eq", b, 0, 8)):
            return 0
        k += 1
        if k > 100000:
            raise Unmodelled("strchr")


@model(r"^isxdigit$", r"^isdigit$", r"^isalpha$", r"^isalnum$", r"^isspace$", r"^isupper$", r"^islower$", r"^isprint$", r"^iscntrl$", r"^ispunct$", r"^tolower$", r"^toupper$")
def _(m, st, fn, a, ins):
    import string
    name = fn.dem
    sets = {"isxdigit": string.hexdigits, "isdigit": string.digits, "isalpha": string.ascii_letters, "isalnum": string.ascii_letters + string.digits,
            "isspace": " \t\n\v\f\r", "isupper": string.ascii_uppercase, "islower": string.ascii_lowercase,
            "isprint": "".join(map(chr, range(32, 127))), "iscntrl": "".join(map(chr, list(range(32)) + [127])), "ispunct": string.punctuation}

    def f(x):
        x = sgn(mk(32, x), 32)
        if name in sets:
            return int(0 <= x < 128 and chr(x) in sets[name])
        if 0 <= x < 128:
            return ord(getattr(chr(x), "lower" if name == "tolower" else "upper")())
        return mk(32, x)
    v = a[0]
    if type(v) is int:
        return f(v)
    if v[0] == "T":
        return mktab(v[1], tuple(f(x) for x in v[2]), 32)
    raise Unmodelled(name)


def parse_int(st, atoms, base, signed=True):
    """value of a number written with known or unknown digits: (value, fully parsed)"""
    val = 0
    for k, p in enumerate(atoms):
        if p[0] != "b":
            return None
        b = p[1]
        w = 64

        def dig(x):
            if 48 <= x <= 57:
                d = x - 48
            elif 65 <= x <= 90:
                d = x - 55
            elif 97 <= x <= 122:
                d = x - 87
            else:
                d = 99
            return d
        if type(b) is int:
            d = dig(b)
            if d >= base:
                return val
        elif b[0] == "T":
            if b[3] != 8:
                b = cast("zext", b, b[3], 8)
            tab = tuple(dig(x & 255) for x in b[2])
            ok = ("T", b[1], tuple(int(x < base) for x in tab), 1)
            if not st.decide(ok):
                return val
            d = mktab(b[1], tuple(x if x < base else 0 for x in tab), 64)
        else:
            return None
        val = binop("add", binop("mul", val, base, 64), d, 64)
    return val


@model(r"^(__isoc23_)?strto(l|ll|ul|ull|imax|umax)$")
def _(m, st, fn, a, ins):
    if m.env is not None and hasattr(m.env, "strto"):
        r = m.env.strto(m, st, fn.dem.replace("__isoc23_", ""), a)
        if r is not NotImplemented:
            return r
    v = cstr(m, st, a[0])
    base = a[2]
    at = s_atoms(v)
    b = s_bytes(v)
    if b is not None:
        mm = re.match(rb"\s*([+-]?)([0-9a-zA-Z]*)", b)
        ds = mm.group(2)
        k = 0
        while k < len(ds) and int(chr(ds[k]), 36) < base:
            k += 1
        val = int(ds[:k], base) if k else 0
        if type(a[1]) is tuple:
            end = mm.start(2) + k if k else 0
            m.store(st, a[1], m.padd(a[0], end), 8)
        return mk(64, -val if mm.group(1) == b"-" else val)
    if a[1] != 0 or len(at) > 8 or type(base) is not int:
        raise Unmodelled("strtol on an unknown text")
    r = parse_int(st, at, base)
    if r is None:
        raise Unmodelled("strtol on an unknown text")
    return r


@model(r"^llvm\.mem(cpy|move)\.")
def _(m, st, fn, a, ins):
    m.memcpy(st, a[0], a[1], st.concrete(a[2]))


@model(r"^mem(cpy|move)$")
def _(m, st, fn, a, ins):
    m.memcpy(st, a[0], a[1], st.concrete(a[2]))
    return a[0]


@model(r"^llvm\.memset\.", r"^memset$")
def _(m, st, fn, a, ins):
    n = st.concrete(a[2])
    if type(n) is not int:
        raise Unmodelled("memset of variable size")
    p = a[0]
    o = st.mem[p[1]]
    off = st.concrete(p[2])
    if o.kind == "seq" or type(off) is not int:
        raise Unmodelled("memset on a sequence")
    off = sgn(off, 64)
    if o.size is not None and (off < 0 or off + n > o.size):
        raise Violation("write outside of '%s' (offset %d, %d bytes, size %d)" % (o.name, off, n, o.size))
    o = st.wobj(p[1])
    for k in [k for k in o.cells if type(k) is int and off <= k < off + n]:
        del o.cells[k]
    if a[1] == 0:
        o.x["zero"] = list(o.x.get("zero", ())) + [(off, n)]
    else:
        for k in range(n):
            o.cells[off + k] = (mk(8, a[1]), 1)
    return a[0]


@model(r"^llvm\.lifetime\.(start|end)")
def _(m, st, fn, a, ins):
    """the contents of a variable do not outlive its scope"""
    p = a[1]
    if type(p) is tuple and p[0] == "P" and p[2] == 0 and p[1] in st.mem and st.mem[p[1]].kind == "alloca":
        o = st.wobj(p[1])
        o.cells.clear()
        o.x.pop("zero", None)
    return 0


@model(r"^llvm\.(dbg|assume|donothing|stackrestore|stacksave|experimental)")
def _(m, st, fn, a, ins):
    return 0


@model(r"^llvm\.is\.constant")
def _(m, st, fn, a, ins):
    return 0


@model(r"^llvm\.expect")
def _(m, st, fn, a, ins):
    return a[0]


@model(r"^llvm\.trap$")
def _(m, st, fn, a, ins):
    raise Violation("trap")


@model(r"^llvm\.eh\.typeid\.for")
def _(m, st, fn, a, ins):
    p = a[0]
    name = st.mem[p[1]].name if type(p) is tuple and p[0] == "P" else "*"
    return m.typeid(name)


@model(r"^operator new(\[\])?\(unsigned long\)$")
def _(m, st, fn, a, ins):
    n = st.concrete(a[0])
    if type(n) is not int:
        raise Unmodelled("new of variable size")
    return ("P", st.alloc("heap", "heap", n), 0)


@model(r"^operator delete(\[\])?\(void\*")
def _(m, st, fn, a, ins):
    return None


@model(r"^std::allocator<.*>::~?allocator\(.*\)$", r"^std::__new_allocator<.*>::~?__new_allocator\(.*\)$")
def _(m, st, fn, a, ins):
    return None


@model(r"^__cxa_guard_acquire$")
def _(m, st, fn, a, ins):
    p = a[0]
    o = st.mem[p[1]]
    k = o.cells.get("guard")
    if k is not None:
        return 0
    return 1


@model(r"^__cxa_guard_release$")
def _(m, st, fn, a, ins):
    st.wobj(a[0][1]).cells["guard"] = (1, 1)


@model(r"^__cxa_guard_abort$", r"^__cxa_atexit$")
def _(m, st, fn, a, ins):
    return 0


@model(r"^__cxa_allocate_exception$")
def _(m, st, fn, a, ins):
    return ("P", st.alloc("exc", "exception", a[0] if type(a[0]) is int else None), 0)


@model(r"^__cxa_free_exception$")
def _(m, st, fn, a, ins):
    return None


@model(r"^__cxa_throw$")
def _(m, st, fn, a, ins):
    p = a[1]
    raise Throw(st.mem[p[1]].name if type(p) is tuple and p[0] == "P" else "?", a[0])


@model(r"^__cxa_rethrow$")
def _(m, st, fn, a, ins):
    if not st.caught:
        raise Violation("rethrow without an exception")
    t, o = st.caught[-1]
    raise Throw(t, o)


@model(r"^__cxa_begin_catch$", r"^__clang_call_terminate$")
def _(m, st, fn, a, ins):
    if fn.dem == "__clang_call_terminate":
        raise Violation("std::terminate")
    st.caught = st.caught + (st.exc,)
    return a[0]


@model(r"^__cxa_end_catch$")
def _(m, st, fn, a, ins):
    st.caught = st.caught[:-1]


@model(r"^__cxa_get_exception_ptr$")
def _(m, st, fn, a, ins):
    return a[0]


@model(r"^std::terminate\(\)$", r"^abort$")
def _(m, st, fn, a, ins):
    raise Violation("the program is terminated")


@model(r"^__cxa_pure_virtual$")
def _(m, st, fn, a, ins):
    raise Violation("pure virtual call")


@model(r"^std::__throw_out_of_range", )
def _(m, st, fn, a, ins):
    raise Throw("_ZTISt12out_of_range")


@model(r"^std::__throw_length_error", )
def _(m, st, fn, a, ins):
    raise Throw("_ZTISt12length_error")


@model(r"^std::__throw_logic_error", )
def _(m, st, fn, a, ins):
    raise Throw("_ZTISt11logic_error")


@model(r"^std::__throw_bad_alloc", r"^std::__throw_bad_array_new_length")
def _(m, st, fn, a, ins):
    raise Throw("_ZTISt9bad_alloc")


@model(r"^std::runtime_error::runtime_error\((char const\*|std::string const&)\)$", r"^std::(logic_error|out_of_range|invalid_argument|length_error)::\w+\((char const\*|std::string const&)\)$",
       r"^std::(runtime_error|logic_error|exception|out_of_range|invalid_argument|length_error)::~\w+\(\)$")
def _(m, st, fn, a, ins):
    return None


@model(r"^__errno_location$")
def _(m, st, fn, a, ins):
    i = st.gl.get("#errno")
    if i is None:
        i = st.alloc("global", "errno", 4)
        st.gl["#errno"] = i
        st.mem[i].cells[0] = (0, 4)
    return ("P", i, 0)


@model(r"^snprintf$", r"^sprintf$")
def _(m, st, fn, a, ins):
    bounded = fn.dem == "snprintf"
    k = 2 if bounded else 1
    fmt = s_bytes(cstr(m, st, a[k]))
    if fmt is None:
        raise Unmodelled("snprintf with an unknown format")
    out = fmt_print(m, st, fmt.decode("latin1"), a[k + 1:])
    n = s_len(out)
    size = a[1] if bounded else None
    p = a[0]
    if type(n) is not int:
        if hasattr(m.env, "snprintf_var"):
            return m.env.snprintf_var(m, st, p, size, out, n)
        raise Unmodelled("snprintf of variable length")
    at = s_atoms(out)
    if bounded:
        if type(size) is not int:
            raise Unmodelled("snprintf with variable size")
        if size == 0:
            return n
        at = at[:size - 1]
    for j, x in enumerate(at):
        m.store(st, m.padd(p, j), x[1], 1)
    m.store(st, m.padd(p, len(at)), 0, 1)
    return n


def fmt_print(m, st, fmt, args):
    out = []
    k = 0
    args = list(args)
    for mm in re.finditer(r"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|L)?([a-zA-Z%])|([^%]+)", fmt):
        fl, wd, pr, ln, cv, lit = mm.groups()
        if lit is not None:
            out.append(("k", lit.encode("latin1")))
            continue
        if cv == "%":
            out.append(("k", b"%"))
            continue
        if wd == "*" :
            wd = args.pop(0)
        if pr == "*":
            pr = args.pop(0)
        v = args.pop(0)
        if cv in "xX" and wd is not None and type(wd) in (str, int) and "0" in fl:
            n = int(wd)
            if type(v) is int:
                s = ("%0*x" % (n, mk(32, v)))
                out.append(("k", (s.upper() if cv == "X" else s).encode()))
                continue
            # hexadecimal digits of an unknown value
            if value_below(st, v, 1 << (4 * n)):
                dg = b"0123456789abcdef" if cv == "x" else b"0123456789ABCDEF"
                for j in range(n - 1, -1, -1):
                    nib = binop("and", binop("lshr", v, 4 * j, 32), 15, 32)
                    out.append(("b", lookup(dg, nib)))
                continue
            raise Unmodelled("snprintf of a number with an unknown number of digits")
        if cv in "du" and type(v) is int and wd is None:
            out.append(("k", str(sgn(mk(32, v), 32) if cv == "d" else mk(32, v)).encode()))
            continue
        if cv == "s":
            out += cstr(m, st, v)[1]
            continue
        if cv in "geEfGF":
            out.append(num_piece(st, ("float", cv, pr, v)))
            continue
        raise Unmodelled("snprintf conversion %" + cv)
    return s_canon(("S", tuple(out)))


def lookup(tab, idx):
    if type(idx) is int:
        return tab[idx]
    if idx[0] == "T":
        return mktab(idx[1], tuple(tab[x] if x < len(tab) else 0 for x in idx[2]), 8)
    return ("X", "lookup", tab, idx, 8)


def value_below(st, v, lim):
    if type(v) is int:
        return v < lim
    if v[0] == "T":
        mk_ = st.dom[v[1]]
        return all(x < lim for k, x in enumerate(v[2]) if mk_ >> k & 1)
    ss = sorted(syms_of(v))
    if ss and all(universe(s) is not None for s in ss):
        from .finite import pointwise
        r = pointwise(st, ss, [v])
        if r is not None:
            return int(r[0].max()) < lim and int(r[0].min()) >= 0
        # wide product: decide through the condition itself, which uses the facts of the path
    try:
        return st.decide(icmp("ult", v, lim, width(v, 32)))
    except Fork:
        raise


@model(r"^std::char_traits<char>::length\(char const\*\)$")
def _(m, st, fn, a, ins):
    return s_len(cstr(m, st, a[0]))


# ------------------------------------------------------------------ sequences (vectors, lists)

def esize_of(m, fn):
    """element size of the container class of a member function"""
    t = container_elem(fn.dem)
    c = m.__dict__.setdefault("_esz", {})
    if t in c:
        return c[t]
    known = {"char": 1, "unsigned char": 1, "bool": 1, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "double": 8, "float": 4,
             "std::string": 32, "long long": 8, "unsigned long long": 8, "short": 2}
    n = known.get(t)
    if n is None:
        if t.startswith("std::shared_ptr<"):
            n = 16
        elif t.startswith("std::vector<"):
            n = 24
        elif t.endswith("*"):
            n = 8
    if n is None:
        for f in m.mod.funcs.values():
            if f.decl or "__normal_iterator<" + t not in f.dem or "::operator++()" not in f.dem:
                continue
            for b in f.blocks:
                for i in b:
                    if i.op == "getelementptr" and i.x["off"] > 0 and not i.x["var"]:
                        n = i.x["off"]
    if n is None:
        n = m.mod.sizes.get(t) if hasattr(m.mod, "sizes") else None
    if n is None:
        raise Unmodelled("element size of " + t)
    c[t] = n
    return n


def container_elem(dem):
    """first template argument of the container in a demangled member name"""
    k = re.search(r"std::(vector|list|forward_list|_List_(const_)?iterator|initializer_list|deque)<", dem)
    s = k.end()
    d, j = 0, s
    while j < len(dem):
        c = dem[j]
        if c in "<(":
            d += 1
        elif c in ">)":
            if d == 0:
                break
            d -= 1
        elif c == "," and d == 0:
            break
        j += 1
    return dem[s:j].strip()


NOTBYTES = r"(?!(unsigned )?char[ ,>])"
VEC = r"^std::(vector|list)<" + NOTBYTES + r".*>::"


def getV(m, st, p, fn=None):
    c = cell_get(m, st, p)
    if c is None or type(c[0]) is not tuple or c[0][0] != "V":
        raise Unmodelled("container without a known content (%s)" % (fn.dem if fn else ""))
    return c[0][1]


def newV(m, st, fn, n=0, name="container"):
    return st.alloc("seq", name, x={"esize": esize_of(m, fn), "n": n})


def isbool(fn):
    return container_elem(fn.dem) == "bool"


@model(r"^std::(vector|list)<" + NOTBYTES + r".*>::(vector|list)\(\)$")
def _(m, st, fn, a, ins):
    cell_set(m, st, a[0], ("V", newV(m, st, fn)), 24)


@model(r"^std::(vector|list)<" + NOTBYTES + r".*>::~(vector|list)\(\)$")
def _(m, st, fn, a, ins):
    cell_del(m, st, a[0])


def is_ctor_from(fn, suffix):
    mm = re.match(r"^std::(vector|list)<.*>::\1\((.*)\)$", fn.dem)
    return mm and mm.group(2).endswith(suffix)


@model(VEC + r"(vector|list)\(std::(vector|list)<.*> const&\)$")
def _(m, st, fn, a, ins):
    cell_set(m, st, a[0], ("V", getV(m, st, a[1])), 24)      # shares the elements until they are written
    copy_on_write(m, st, a[0])


def copy_on_write(m, st, p):
    i = getV(m, st, p)
    o = st.mem[i].copy()
    j = new_obj_id()
    o.x["copyof"] = i
    st.mem[j] = o
    cell_set(m, st, p, ("V", j), 24)


@model(VEC + r"(vector|list)\(std::(vector|list)<.*>&&\)$")
def _(m, st, fn, a, ins):
    v = getV(m, st, a[1])
    cell_set(m, st, a[0], ("V", v), 24)
    cell_set(m, st, a[1], ("V", newV(m, st, fn)), 24)


@model(VEC + r"operator=\(std::(vector|list)<.*> const&\)$")
def _(m, st, fn, a, ins):
    cell_set(m, st, a[0], ("V", getV(m, st, a[1])), 24)
    copy_on_write(m, st, a[0])
    return a[0]


@model(VEC + r"operator=\(std::(vector|list)<.*>&&\)$")
def _(m, st, fn, a, ins):
    v = getV(m, st, a[1])
    cell_set(m, st, a[0], ("V", v), 24)
    cell_set(m, st, a[1], ("V", newV(m, st, fn)), 24)
    return a[0]


@model(VEC + r"vector\(std::initializer_list<.*>, .*\)$")
def _(m, st, fn, a, ins):
    """elements are in a local array"""
    es = esize_of(m, fn)
    n = a[2]
    i = newV(m, st, fn, n)
    if type(n) is not int:
        raise Unmodelled("initializer list")
    o = st.mem[i]
    for k in range(n):
        cells = {}
        src = m.padd(a[1], k * es)
        so = st.mem[src[1]]
        off = sgn(src[2], 64)
        for co, c in so.cells.items():
            if type(co) is int and off <= co < off + es:
                cells[co - off] = c
        o.x["e", k] = cells
    cell_set(m, st, a[0], ("V", i), 24)


@model(VEC + r"(size|length)\(\) const$")
def _(m, st, fn, a, ins):
    return st.mem[getV(m, st, a[0], fn)].x["n"]


@model(VEC + r"empty\(\) const$")
def _(m, st, fn, a, ins):
    return icmp("eq", st.mem[getV(m, st, a[0], fn)].x["n"], 0, 64)


@model(VEC + r"(c?begin|data)\(\)( const)?$")
def _(m, st, fn, a, ins):
    p = ("P", getV(m, st, a[0], fn), 0)
    if isbool(fn):
        return ("A", (p, 0))
    return p


@model(VEC + r"c?end\(\)( const)?$")
def _(m, st, fn, a, ins):
    i = getV(m, st, a[0], fn)
    p = ("P", i, lin_scale(st.mem[i].x["n"], st.mem[i].x["esize"], 64))
    if isbool(fn):
        return ("A", (p, 0))
    return p


@model(VEC + r"(operator\[\]|at)\(unsigned long\)( const)?$")
def _(m, st, fn, a, ins):
    i = getV(m, st, a[0], fn)
    n = st.mem[i].x["n"]
    if not st.decide(icmp("ult", a[1], n, 64)):
        if "::at(" in fn.dem:
            raise Throw("_ZTISt12out_of_range")
        raise Violation("index %s outside of a vector of size %s" % (show(a[1]), show(n)))
    return ("P", i, lin_scale(a[1], st.mem[i].x["esize"], 64))


@model(VEC + r"(front|back)\(\)( const)?$")
def _(m, st, fn, a, ins):
    i = getV(m, st, a[0], fn)
    n = st.mem[i].x["n"]
    if st.decide(icmp("eq", n, 0, 64)):
        raise Violation("front() or back() of an empty container")
    k = 0 if "::front(" in fn.dem else lin_add(n, 1, 64, -1)
    return ("P", i, lin_scale(k, st.mem[i].x["esize"], 64))


@model(VEC + r"clear\(\)$")
def _(m, st, fn, a, ins):
    cell_set(m, st, a[0], ("V", newV(m, st, fn)), 24)


@model(VEC + r"swap\(.*\)$", r"^void std::swap<.*>\(std::(vector|list)<" + NOTBYTES + r".*\)$")
def _(m, st, fn, a, ins):
    x, y = getV(m, st, a[0]), getV(m, st, a[1])
    cell_set(m, st, a[0], ("V", y), 24)
    cell_set(m, st, a[1], ("V", x), 24)


@model(r"^std::_List_(const_)?iterator<.*>::operator\*\(\) const$", r"^std::_List_(const_)?iterator<.*>::operator->\(\) const$")
def _(m, st, fn, a, ins):
    return m.load(st, a[0], "ptr")


@model(r"^std::_List_(const_)?iterator<.*>::operator\+\+\(\)$")
def _(m, st, fn, a, ins):
    p = m.load(st, a[0], "ptr")
    m.store(st, a[0], m.padd(p, st.mem[p[1]].x["esize"]), 8)
    return a[0]


@model(r"^std::operator[!=]=\(std::_List_(const_)?iterator<.*$", r"^std::_List_(const_)?iterator<.*>::operator[!=]=\(")
def _(m, st, fn, a, ins):
    r = m.cmp(st, "eq", m.load(st, a[0], "ptr"), m.load(st, a[1], "ptr"), "ptr")
    return negate(r) if "operator!=" in fn.dem else r


@model(r"^std::_Bit_(const_)?iterator::operator\*\(\) const$")
def _(m, st, fn, a, ins):
    p = m.load(st, a[0], "ptr")
    return m.load(st, p, "i8") if True else None


@model(r"^std::_Bit_(const_)?iterator::operator\+\+\(\)$")
def _(m, st, fn, a, ins):
    p = m.load(st, a[0], "ptr")
    m.store(st, a[0], m.padd(p, 1), 8)
    return a[0]


@model(r"^std::_Bit_(const_)?iterator::operator\+\+\(int\)$", r"^std::_Bit_(const_)?iterator::operator--\(int\)$")
def _(m, st, fn, a, ins):
    p = m.load(st, a[0], "ptr")
    m.store(st, a[0], m.padd(p, 1 if "++" in fn.dem else -1), 8)
    return ("A", (p, 0))


@model(r"^std::_Bit_(const_)?iterator::operator--\(\)$")
def _(m, st, fn, a, ins):
    m.store(st, a[0], m.padd(m.load(st, a[0], "ptr"), -1), 8)
    return a[0]


@model(r"^std::_Bit_(const_)?iterator::operator[+-]=\(long\)$", r"^std::_Bit_iterator_base::_M_incr\(long\)$")
def _(m, st, fn, a, ins):
    n = lin_scale(a[1], -1, 64) if "-=" in fn.dem else a[1]
    m.store(st, a[0], m.padd(m.load(st, a[0], "ptr"), n), 8)
    return a[0]


@model(r"^std::_Bit_(const_)?iterator::operator[+-]\(long\) const$", r"^std::operator[+-]\(std::_Bit_(const_)?iterator const&, long\)$")
def _(m, st, fn, a, ins):
    n = lin_scale(a[1], -1, 64) if "operator-" in fn.dem else a[1]
    return ("A", (m.padd(m.load(st, a[0], "ptr"), n), 0))


@model(r"^std::operator-\(std::_Bit_iterator_base const&, std::_Bit_iterator_base const&\)$")
def _(m, st, fn, a, ins):
    p, q = m.load(st, a[0], "ptr"), m.load(st, a[1], "ptr")
    if p[1] != q[1]:
        raise Violation("difference of iterators of different containers")
    return lin_add(p[2] if type(p[2]) is tuple else mk(64, p[2]), q[2] if type(q[2]) is tuple else mk(64, q[2]), 64, -1)


@model(r"^std::_List_(const_)?iterator<.*>::operator--\(\)$")
def _(m, st, fn, a, ins):
    p = m.load(st, a[0], "ptr")
    m.store(st, a[0], m.padd(p, -st.mem[p[1]].x["esize"]), 8)
    return a[0]


@model(r"^std::_List_(const_)?iterator<.*>::operator(\+\+|--)\(int\)$")
def _(m, st, fn, a, ins):
    p = m.load(st, a[0], "ptr")
    k = st.mem[p[1]].x["esize"]
    m.store(st, a[0], m.padd(p, k if "++" in fn.dem else -k), 8)
    return p


@model(r"^std::operator[!=]=\(std::_Bit_iterator_base const&")
def _(m, st, fn, a, ins):
    r = m.cmp(st, "eq", m.load(st, a[0], "ptr"), m.load(st, a[1], "ptr"), "ptr")
    return negate(r) if "operator!=" in fn.dem else r


# ------------------------------------------------------------------ shared_ptr

SP = r"^std::(__)?shared_ptr<.*>::"


@model(SP + r"(__)?shared_ptr\((std::nullptr_t)?\)$")
def _(m, st, fn, a, ins):
    m.store(st, a[0], 0, 8)


@model(SP + r"(__)?shared_ptr\(std::(__)?shared_ptr<.*> const&\)$")
def _(m, st, fn, a, ins):
    m.store(st, a[0], m.load(st, a[1], "ptr"), 8)


@model(SP + r"(__)?shared_ptr\(std::(__)?shared_ptr<.*>&&\)$")
def _(m, st, fn, a, ins):
    m.store(st, a[0], m.load(st, a[1], "ptr"), 8)
    m.store(st, a[1], 0, 8)


@model(SP + r"operator=\(std::(__)?shared_ptr<.*> const&\)$")
def _(m, st, fn, a, ins):
    m.store(st, a[0], m.load(st, a[1], "ptr"), 8)
    return a[0]


@model(SP + r"operator=\(std::(__)?shared_ptr<.*>&&\)$")
def _(m, st, fn, a, ins):
    v = m.load(st, a[1], "ptr")
    m.store(st, a[1], 0, 8)
    m.store(st, a[0], v, 8)
    return a[0]


@model(SP + r"~(__)?shared_ptr\(\)$", SP + r"reset\(\)$")
def _(m, st, fn, a, ins):
    if "reset" in fn.dem:
        m.store(st, a[0], 0, 8)


@model(r"^std::__shared_ptr_access<.*>::operator(\*|->)\(\) const$", r"^std::__shared_ptr(_access)?<.*>::(get|_M_get)\(\) const$")
def _(m, st, fn, a, ins):
    v = m.load(st, a[0], "ptr")
    if "::get" in fn.dem or "_M_get" in fn.dem:
        return v
    if v == 0:
        raise Violation("null shared_ptr dereferenced")
    if type(v) is tuple and v[0] == "Q":
        if not st.decide(fin_flag(v[1])):
            raise Violation("null shared_ptr dereferenced")
        return v[2]
    return v


@model(r"^bool std::operator[!=]=<.*>\(std::shared_ptr<.*> const&, std::nullptr_t\)$", r"^std::__shared_ptr<.*>::operator bool\(\) const$")
def _(m, st, fn, a, ins):
    r = m.cmp(st, "eq", m.load(st, a[0], "ptr"), 0, "ptr")
    return r if "operator==" in fn.dem else negate(r)


@model(r"^bool std::operator[!=]=<.*>\(std::shared_ptr<.*> const&, std::shared_ptr<.*> const&\)$")
def _(m, st, fn, a, ins):
    r = m.cmp(st, "eq", m.load(st, a[0], "ptr"), m.load(st, a[1], "ptr"), "ptr")
    return r if "operator==" in fn.dem else negate(r)


# ------------------------------------------------------------------ streams as sinks

@model(r"^std::basic_ostream<char>& std::operator<<<.*>\(std::basic_ostream<char>&, (char const\*|char|std::string const&|signed char|unsigned char)\)$",
       r"^std::(basic_)?ostream(<char>)?::operator<<\((int|unsigned int|long|unsigned long|long long|unsigned long long)\)$", r"^std::ostream::(put|write)\(.*\)$",
       r"^std::basic_ostream<char>& std::operator<<<.*>\(std::basic_ostream<char>&, std::_Set\w+\)$", r"^std::(basic_)?ostream(<char>)?::operator<<\(std::ios_base& \(\*\)\(std::ios_base&\)\)$",
       r"^std::(basic_)?ostream(<char>)?::operator<<\(std::ostream& \(\*\)\(std::ostream&\)\)$")
def _(m, st, fn, a, ins):
    t = split_args(fn.dem)[-1]
    if t == "char const*":
        v = cstr(m, st, a[1])
    elif t in ("char", "signed char", "unsigned char"):
        v = ("S", (piece_of(byteval(a[1])),))
    elif t == "std::string const&":
        v = getS(m, st, a[1])
    elif t in ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long"):
        hexa = stream_flag(m, st, a[0], "hex")
        x = a[1]
        if type(x) is int:
            w = 32 if "int" in t else 64
            v = s_const((("%x" % mk(w, x)) if hexa else str(mk(w, x) if "unsigned" in t else sgn(mk(w, x), w))).encode())
        elif type(x) is tuple and x[0] == "T" and hexa:
            msk = st.dom[x[1]]
            xs = [y for k, y in enumerate(x[2]) if msk >> k & 1]
            two = ("T", x[1], tuple(int(y >= 16) for y in x[2]), 1)
            if max(xs) >= 256:
                raise Unmodelled("hexadecimal output")
            if st.decide(two):
                v = ("S", (("b", mktab(x[1], tuple(b"0123456789abcdef"[y >> 4 & 15] for y in x[2]), 8)), ("b", mktab(x[1], tuple(b"0123456789abcdef"[y & 15] for y in x[2]), 8))))
            else:
                v = ("S", (("b", mktab(x[1], tuple(b"0123456789abcdef"[y & 15] for y in x[2]), 8)),))
        else:
            v = ("S", (num_piece(st, ("num", x, t)),))
    elif t.startswith("std::ios_base& (*)") or t.startswith("std::_Set"):
        name = a[1][1] if type(a[1]) is tuple and a[1][0] == "F" else "?"
        if "3hex" in name:
            stream_flag(m, st, a[0], "hex", True)
        elif "3dec" in name:
            stream_flag(m, st, a[0], "hex", False)
        else:
            raise Unmodelled("stream manipulator " + name)
        return a[0]
    elif t.startswith("std::ostream& (*)"):
        v = s_const(b"\n")
    elif "::write(" in fn.dem:
        v = mem_bytes(m, st, a[1], a[2])
    else:
        raise Unmodelled(fn.dem)
    sink(m, st, a[0], v)
    return a[0]


def stream_key(m, st, p):
    return p


def stream_flag(m, st, p, name, val=None):
    k = ("stream", p, name)
    if val is not None:
        st.ghost[k] = val
        return val
    return st.ghost.get(k, False)


def sink(m, st, p, v):
    """text written to a std::ostream"""
    if type(p) is tuple and p[0] == "P":
        o = st.mem.get(p[1])
        if o is not None and o.x.get("sstream"):
            base = o.x["sstream"]
            c = o.cells.get("text")
            st.wobj(p[1]).cells["text"] = (s_cat(c[0] if c else s_const(b""), v), 32)
            return
    m.env.output(m, st, p, v)


@model(r"^std::basic_(o?string|string)stream<.*>::basic_(o?string|string)stream\(\)$")
def _(m, st, fn, a, ins):
    i = a[0][1]
    st.wobj(i).x["sstream"] = True
    st.wobj(i).cells["text"] = (s_const(b""), 32)


@model(r"^std::basic_(o?string|string)stream<.*>::str\(\) const$")
def _(m, st, fn, a, ins):
    setS(m, st, a[0], st.mem[a[1][1]].cells["text"][0])


@model(r"^std::basic_(o?string|string)stream<.*>::~basic_(o?string|string)stream\(\)$")
def _(m, st, fn, a, ins):
    return None
