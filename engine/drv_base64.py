"""bytes fields: the text of the JSON string against RFC 4648.

json<std::vector<uint8_t>>::read is interpreted on a string of unknown length and contents. The reference decodes the
text group by group; what the code collects must be what the reference decoded, the text is accepted if and only if
the reference accepts it."""
from .explore import *
from .drv_codec import *
from .drv_codec import Read, RM
from .drv_jsonlex import same_atom, one_value
from .models import s_cat, piece_of, s_atoms, getS
from . import models
from .vals import s_flat

ALPHABET = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
VAL = tuple(ALPHABET.find(bytes([c])) if c in ALPHABET else 0 for c in range(256))
AMASK = sum(1 << c for c in ALPHABET)
PMASK = 1 << ord("=")
BMASK = ((1 << 256) - 1) & ~AMASK & ~PMASK


def occurrences(st, syms):
    """tables over the unknowns: {sym: set of (table, width)}; None for a sym that is used otherwise"""
    out = {s: set() for s in syms}

    def f(v):
        if v[0] == "T" and v[1] in out:
            out[v[1]].add((v[2], v[3]))
        return v
    subst(st, f)
    return out


def settle_tables(st, syms, tables):
    """writes the values computed from a byte in one way: tables that agree on the domain become the same"""
    occ = occurrences(st, syms)
    new = {}
    for s in syms:
        dom = [i for i in range(256) if st.dom[s] >> i & 1]
        for tab, w in occ[s]:
            for ref in tables:
                if all(mk(w, ref[i]) == tab[i] for i in dom):
                    new[s, tab, w] = tuple(mk(w, x) for x in ref)
                    break
            else:
                # constant on the domain
                vs = {tab[i] for i in dom}
                new[s, tab, w] = vs.pop() if len(vs) == 1 else None

    def f(v):
        if v[0] == "T":
            n = new.get((v[1], v[2], v[3]))
            if type(n) is int:
                return n
            if n is not None:
                return ("T", v[1], n, v[3])
        return v
    subst(st, f)
    return {s for s in syms if all(new[s, t, w] is not None and type(new[s, t, w]) is not int for t, w in occ[s])}


class Window:
    """text of unknown length as known part + rest: length = pos + a + unit * rest"""

    def win_init(self, st, sid, unit, r, size):
        g = st.ghost
        self.unit, self.size = unit, size
        R = st.widesym("rest", 0, None)
        g["win"] = (("#obj", sid),)
        g["pos"] = 0
        g["=a"], g["=open"], g["=cls"], g["#R"] = r, 1, "", R
        st.wobj(sid).x["n"] = lin_add(r, lin_scale(lin(R), unit, 64), 64)

    def wid(self, st):
        return st.ghost["win"][0][1]

    def rests(self, st):
        return [st.ghost["#R"]] if st.ghost["=open"] else []

    def rest_is(self, st, k, closed):
        """replaces the rest by a constant, or by a constant + a new rest"""
        g = st.ghost
        R = g["#R"]
        new = None if closed else st.widesym("rest", 0, None)
        target = k if closed else lin_add(lin(new), k, 64)

        def f(v):
            if v[0] != "L":
                return v
            d = dict(v[1])
            c = d.pop(R, 0)
            if not c:
                return v
            return lin_add(mklin(d, v[2], 64), lin_scale(target, c, 64), 64)
        subst(st, f)
        g["=a"] += k * self.unit
        g["=open"] = 0 if closed else 1
        g["#R"] = new

    def split_rest(self, st):
        """states in which the window is complete, or the end is in it"""
        out = []
        while st.ghost["=open"] and st.ghost["=a"] < self.size:
            lo, hi = st.srange(lin(st.ghost["#R"]), 64)
            if lo is not None and lo > 0:
                self.rest_is(st, 1, False)
                continue
            if hi == 0:
                self.rest_is(st, 0, True)
                break
            s2 = st.copy()
            if st.ghost["#R"] is not None:
                self.rest_is(s2, 0, True)
                out.append(s2)
            st = st.copy()
            self.rest_is(st, 1, False)
        return out + [st]

    def shift(self, st, k):
        """the first k elements of the window are done with"""
        g = st.ghost
        g["pos"] = lin_add(g["pos"], k, 64)
        g["=a"] -= k
        g["=cls"] = g["=cls"][k:]
        if g["=a"] < 0:
            raise Unmodelled("window")
        w = st.wobj(self.wid(st))
        for key in [key for key in w.x if type(key) is tuple and key[0] == "e"]:
            d = difference(key[1], g["pos"])
            if d is None or d < 0:
                del w.x[key]

    def elem_at(self, st, d):
        idx = lin_add(st.ghost["pos"], d, 64)
        for key, c in st.mem[self.wid(st)].x.items():
            if type(key) is tuple and key[0] == "e" and difference(key[1], idx) == 0:
                return c[0][0]
        return None

    def place(self, st, s):
        """distance of the element asked for from the beginning of the window"""
        sid, idx = s.info
        if sid != self.wid(st):
            raise Unmodelled("an element of another sequence is looked at")
        d = difference(idx, st.ghost["pos"])
        if d is None or d < 0:
            raise Unmodelled("the text is looked at out of order")
        return d

    def window_syms(self, st):
        out = []
        for key, c in st.mem[self.wid(st)].x.items():
            if type(key) is tuple and key[0] == "e":
                out += [x for x in syms_of(c[0][0])]
        return out


IDENT256 = tuple(range(256))


class Base64Read(Read, Window):
    moving = ("pos",)

    def start(self):
        st = Read.start(self)
        m, g = self.m, st.ghost
        sid = st.alloc("seq", "text", x={"esize": 1, "cstr": True})
        out = []
        for r in range(4):
            s2 = st.copy()
            self.win_init(s2, sid, 4, r, 8 + r)
            s2.ghost["=r"], s2.ghost["out"], s2.ghost["=fin"] = r, ("S", ()), 0
            s2.ghost["want"] = 0
            v = ("S", (("t", sid, 0, s2.mem[sid].x["n"]),))
            cell_set(m, s2, self.token_at(s2, "value"), v, 32)
            s2.ghost["text"] = v
            s2.note("in", "%d characters over a multiple of 4" % r)
            out += self.split_rest(s2)
        return out

    def abstract(self, st, s):
        g = st.ghost
        if s.kind == "elem":
            d = self.place(st, s)
            if g["=node"][0] != "value":
                raise Unmodelled("the text is looked at after it was taken")
            self.size = 8 + g["=r"]
            while d >= 4 and not self.broken(st) and len(g["=cls"]) >= 4 and "?" not in g["=cls"][:4]:
                self.finish_group(st)
                d -= 4
            if d >= 8:
                raise Unmodelled("the text is read ahead")
            self.settle_out(st)
            self.link_values(st)
            ok = settle_tables(st, set(self.window_syms(st)), (VAL, IDENT256))
            for y in self.window_syms(st):
                if y in ok and st.dom[y] & AMASK == st.dom[y]:
                    st.dom[y] = AMASK
            g["want"] = d
            return self.rests(st)
        Read.abstract(self, st, s)
        return self.rests(st) if "#R" in g and g["=open"] else []

    def broken(self, st):
        """the text is known not to be base64"""
        g = st.ghost
        if g["=r"]:
            return True
        c = g["=cls"]
        if "B" in c:
            return True
        for i, x in enumerate(c):
            if x != "P":
                continue
            if i % 4 < 2:
                return True
            if i % 4 == 2 and c[i + 1:i + 2] == "A":
                return True
            if g["=a"] > i // 4 * 4 + 4:
                return True
        return False

    def finish_group(self, st):
        """the reference decodes the first group of the window"""
        g = st.ghost
        c = g["=cls"][:4]
        es = [self.elem_at(st, k) for k in range(4)]
        vs = []
        for e in es:
            if e is None:
                raise Unmodelled("element of the window")
            vs.append(("T", e[1], VAL, 32) if type(e) is tuple and e[0] == "T" and e[2] == IDENT256 else None)
            if vs[-1] is None:
                raise Unmodelled("element of the window")
        bs = [binop("or", binop("shl", vs[0], 2, 32), binop("lshr", vs[1], 4, 32), 32)]
        if c[2] == "A":
            bs.append(binop("or", binop("shl", vs[1], 4, 32), binop("lshr", vs[2], 2, 32), 32))
            if c[3] == "A":
                bs.append(binop("or", binop("shl", vs[2], 6, 32), vs[3], 32))
        for b in bs:
            g["out"] = s_cat(g["out"], ("S", (piece_of(cast("trunc", b, 32, 8)),)))
        self.shift(st, 4)
        self.tick("groups")

    def settle_out(self, st):
        """what both have decoded becomes one unknown text"""
        g = st.ghost
        ga = s_atoms(g["out"])
        best, cells = 0, []
        for i, o in st.mem.items():
            if o.kind == "global" and o.x.get("const"):
                continue
            for k, c in o.cells.items():
                if type(c[0]) is tuple and c[0][0] == "S" and c[0][1]:
                    a = s_atoms(c[0])
                    n = 0
                    while n < len(a) and n < len(ga) and (a[n] == ga[n] or same_atom(st, a[n], ga[n])):
                        n += 1
                    if n and n == len(a):
                        cells.append((i, k, n))
                        best = max(best, n)
        if len(ga) - best > 6:
            self.fail(st, "the bytes collected are not those of the text", "base64")
        if best > 1 or (best == 1 and ga[0][0] != "v"):
            v = st.widesym("decoded", 1, None)
            g["out"] = ("S", (("v", v),) + tuple(ga[best:]))
            for i, k, n in cells:
                o = st.wobj(i)
                o.cells[k] = (("S", (("v", v),) if n == best else (("v", st.widesym("old", 1, None)),)),) + tuple(o.cells[k][1:])

    def link_values(self, st):
        """a digit that is known exactly: the value computed from it is written as a value of the digit
        again, so that it generalises together with it"""
        for y in self.window_syms(st):
            dom = [i for i in range(256) if st.dom[y] >> i & 1]
            if len(dom) != 1 or not AMASK >> dom[0] & 1 or VAL[dom[0]] < 8:
                continue
            v = VAL[dom[0]]
            for i, o in list(st.mem.items()):
                if o.kind != "alloca":
                    continue
                for k, c in list(o.cells.items()):
                    if type(c[0]) is int and c[0] == v and c[1] in (1, 2, 4, 8):
                        st.wobj(i).cells[k] = (("T", y, VAL, 8 * c[1]),) + tuple(c[1:])

    def resume(self, st, s):
        if s.kind != "elem":
            return Read.resume(self, st, s)
        g = st.ghost
        d = g["want"]
        self.size = 8 + g["=r"]
        out = []
        for s1 in self.split_rest(st):
            if s1.ghost["=a"] <= d:
                continue        # was decided to be inside
            for c, msk in (("A", AMASK), ("P", PMASK), ("B", BMASK)):
                s2 = s1.copy()
                y = s2.finsym("char", 256, msk)
                w = s2.wobj(self.wid(s2))
                w.x["e", lin_add(s2.ghost["pos"], d, 64)] = {0: (fin(y, 8), 1)}
                cl = list(s2.ghost["=cls"])
                cl += ["?"] * (d + 1 - len(cl))
                cl[d] = c
                s2.ghost["=cls"] = "".join(cl)
                s2.note("in", {"A": "base64 digit", "P": "=", "B": "another character"}[c])
                out.append(s2)
        return out

    # ---- the token is taken, or refused
    def consume(self, st):
        g = st.ghost
        if g["=node"][0] == "value" and not g["=err"]:
            if self.decide_kind(st, [("STRING",)]) is not None:
                if self.broken(st):
                    self.fail(st, "a text that is not base64 is accepted", "base64")
                if g["=open"] or "?" in g["=cls"] or len(g["=cls"]) < g["=a"]:
                    raise Unmodelled("the text is taken before it was looked at") if g["=cls"] == "" and g["=open"] else Violation("the text is accepted without having been looked at whole", rule="base64", where=(self.entry.where(), self.entry.dem))
                while g["=a"]:
                    self.finish_group(st)
                g["elem"] = ((0, g["out"], 24),)
        Read.consume(self, st)

    def refused(self, st):
        g = st.ghost
        if g["=node"][0] == "value":
            if self.decide_kind(st, [("STRING",)]) is not None:
                if self.broken(st):
                    return
                if g["=open"]:
                    self.fail(st, "a text is refused that can be base64", "base64")
                self.fail(st, "base64 text is refused", "base64")
        Read.refused(self, st)
