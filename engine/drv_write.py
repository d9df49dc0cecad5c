"""The codec json<T>: writing, function by function, each against the contract that its callers rely on.

Every instantiation json<X>::write is interpreted on an unknown object. The stream is replaced by a reader of the text
that is emitted: the reference follows the JSON grammar over every character as it comes, decodes names and strings, and
compares what they mean with the object. Calls to another codec are replaced by its contract (it emits exactly one JSON
value that means the object it is given, or it fails after recording an error), which is established for it in turn."""
from .explore import *
from .drv_codec import *
from .drv_codec import Codec, OK, ERROR, NILR
from .drv_jsonlex import utf8
from .drv_base64 import Window, ALPHABET, IDENT256
from .models import MODELS, getS, streq, cell_get, cell_set, cstr, s_atoms, lookup, num_piece
from . import models

WM = []


def wmodel(*pats):
    def deco(f):
        for p in pats:
            WM.append((re.compile(p), f))
        return f
    return deco


@wmodel(r"^protogen_\w+::(?:internal::)?(?:iterator_)?ostream(?:<.*>)?::operator<<\((char|char const\*|char\*|std::string const&)\)$")
def _(m, st, fn, a, ins):
    if not st.ghost["=go"]:
        k = fn.dem[fn.dem.rindex("(") + 1:-1]
        if k == "char":
            v = ("S", (models.piece_of(a[1]),))
        elif k.startswith("char"):
            v = cstr(m, st, a[1])
        else:
            v = getS(m, st, a[1])
        if not v[1]:
            return a[0]
        raise Suspend("emit", (a[0], v))
    st.ghost["=go"] = 0
    return a[0]


CALLW = re.compile(r"^protogen_\w+::json<(.*), void>::(write)\(protogen_\w+::json_context&, (.*) const&\)$")
CALLE = re.compile(r"^protogen_\w+::json<(.*), void>::(empty)\((.*) const&\)$")


@wmodel(CALLW.pattern)
def _(m, st, fn, a, ins):
    X, _, Y = CALLW.match(fn.dem).groups()
    if not st.ghost["=go"]:
        raise Suspend("write", (X, Y, tuple(a)))
    go, st.ghost["=go"] = st.ghost["=go"], 0
    return {"ok": OK, "error": ERROR}[go]


@wmodel(CALLE.pattern)
def _(m, st, fn, a, ins):
    X, _, Y = CALLE.match(fn.dem).groups()
    if not st.ghost["=go"]:
        raise Suspend("empty", (X, Y, tuple(a)))
    go, st.ghost["=go"] = st.ghost["=go"], 0
    return int(go == "empty")


NTS = re.compile(r"^std::string protogen_\w+::number_to_string<([^,>]*)(?:, \w+)*>\(")


@wmodel(NTS.pattern)
def _(m, st, fn, a, ins):
    """contract: the text of the number (see J10)"""
    T = NTS.match(fn.dem).group(1)
    v = m.env.leaf(st, a[1], "f" if T in ("double", "float") else "i", NUMBERS[T])
    cell_set(m, st, a[0], ("S", (num_piece(st, (T, v)),)), 32)


HEX = tuple("0123456789abcdef".find(chr(c).lower()) if chr(c).lower() in "0123456789abcdef" and c < 128 else 255 for c in range(256))
SHORT = {ord('"'): 34, ord("\\"): 92, ord("/"): 47, ord("b"): 8, ord("f"): 12, ord("n"): 10, ord("r"): 13, ord("t"): 9}
WS = b" \t\r\n"


def retable(v, tab, w=32):
    """table look-up of a byte value"""
    if type(v) is int:
        return tab[v & 255]
    if v[0] == "T":
        return mktab(v[1], tuple(tab[x & 255] for x in v[2]), w)
    if v[0] == "X" and v[1] == "lookup":
        return cast("zext", ("X", "lookup", bytes(tab[x] for x in v[2]), v[3], 8), 8, w)
    raise Unmodelled("character that is emitted")


class Write(Codec, Window):
    """json<X>::write"""
    moving = ("pos", "cnt")
    JOINBYTES = False

    def __init__(self, mod, ns, entry, X=None, schema=None):
        Codec.__init__(self, mod, ns, WM)
        self.entry, self.X, self.schema = entry, X, schema
        self.name = entry.dem
        T = self.types.t
        self.ctx = {n: (o, t) for n, o, t, _ in T[ns + "::json_context"]["members"]}
        self.par = {n: (o, t) for n, o, t, _ in T[ns + "::Parameters"]["members"]}
        self.ei = {n: (o, norm(t)) for n, o, t, _ in T[ns + "::ErrorInfo"]["members"]}
        for d, ns_ in ((self.ctx, ("tok", "os", "params")), (self.par, ("error", "ensure_ascii", "serialize_null")), (self.ei, ("code", "message", "line", "column"))):
            for n in ns_:
                if n not in d:
                    raise Anchor("member " + n)
        self.eoff = self.ctx["params"][0] + self.par["error"][0]
        self.fields = []
        if X is not None:
            mm = CALLW.match(entry.dem)
            if not mm:
                raise Anchor("signature of " + entry.dem)
            self.Y = mm.group(3)
            self.kind = self.types.kind(X)
            if self.kind == "message":
                self.describe_message()
        self.vtables = [g for g in mod.globals if re.search(r"^@?_ZTVN\d+protogen_\w+16iterator_ostream", g)]
        if not self.vtables:
            raise Anchor("a stream that the runtime provides")

    describe_message = Read.describe_message
    error_of = Read.error_of
    base_of = Read.base_of

    # ---- start
    def make_os(self, st):
        os = st.alloc("heap", "stream", 16)
        g = self.m.globobj(st, self.vtables[0])
        self.m.store(st, ("P", os, 0), ("P", g, 16), 8)
        return os

    def start(self):
        out = []
        for asc in (0, 1):
            for nul in (0, 1):
                out += self.start1(asc, nul)
        return out

    def start1(self, asc, nul):
        st = State()
        m, g = self.m, st.ghost
        os = self.make_os(st)
        ctx = st.alloc("heap", "context", self.types.t[self.ns + "::json_context"]["size"])
        po = self.ctx["params"][0]
        m.store(st, ("P", ctx, self.ctx["tok"][0]), 0, 8)
        m.store(st, ("P", ctx, self.ctx["os"][0]), ("P", os, 0), 8)
        m.store(st, ("P", ctx, po + self.par["ensure_ascii"][0]), asc, 1)
        m.store(st, ("P", ctx, po + self.par["serialize_null"][0]), nul, 1)
        m.store(st, ("P", ctx, self.eoff + self.ei["code"][0]), 0, 4)
        cell_set(m, st, ("P", ctx, self.eoff + self.ei["message"][0]), ("S", ()), 32)
        for n in ("line", "column"):
            m.store(st, ("P", ctx, self.eoff + self.ei[n][0]), 0, 4)
        obj = st.alloc("heap", "object", self.types.size(self.Y))
        g["objs"] = (("#obj", ctx), ("#obj", os), ("#obj", obj))
        g["=node"], g["=go"], g["=err"], g["err"] = ("start",), 0, 0, 0
        g["=asc"], g["=nul"] = asc, nul
        g["=str"], g["=todo"], g["=empt"], g["=cur"] = "", tuple(n for n, _, _ in self.fields), (), ""
        g["hex"], g["hi"], g["grp"], g["cnt"] = (), (), (), 0
        st.note("in", "ensure_ascii=%d serialize_null=%d" % (asc, nul))
        if self.kind in ("string", "bytes"):
            sid = st.alloc("seq", "value", x={"esize": 1, "cstr": self.kind == "string"})
            self.win_init(st, sid, 1, 0, 4 if self.kind == "string" else 3)
            v = ("S", (("t", sid, 0, st.mem[sid].x["n"]),))
            cell_set(m, st, ("P", obj, 0), v, self.types.size(self.Y))
            g["obj"] = ()
            starts = self.split_rest(st)
        elif self.kind == "container":
            g["obj"] = self.fill(st, self.Y, ("P", obj, 0))
            sid = g["obj"][0][1][1]
            self.win_init(st, sid, 1, 0, 2)
            starts = self.split_rest(st)
        else:
            g["obj"] = self.fill(st, self.Y, ("P", obj, 0))
            starts = [st]
        for s in starts:
            m.call_function(s, self.entry, [("P", ctx, 0), ("P", obj, 0)])
        return starts

    def objp(self, st):
        return ("P", st.ghost["objs"][2][1], 0)

    def value_now(self, st):
        return self.snapshot(st, self.Y, self.objp(st))

    # ---- suspension
    def abstract(self, st, s):
        g = st.ghost
        if s.kind == "elem":
            d = self.place(st, s)
            if d >= self.size:
                raise Unmodelled("the value is read far ahead")
            g["=want"] = d
        elif s.kind == "emit":
            if s.info[0] != ("P", g["objs"][1][1], 0):
                self.fail(st, "text is written to another stream", "context")
            if not g["=err"]:
                for x in s_atoms(s.info[1]):
                    self.feed_atom(st, x)
        elif s.kind == "write":
            self.check_write(st, s)
        elif s.kind == "empty":
            self.check_empty(st, s)
        else:
            raise Unmodelled("unexpected request " + s.kind)
        return [g["#R"]] if "#R" in g and g["=open"] else []

    def resume(self, st, s):
        g = st.ghost
        sts = self.split_rest(st) if "#R" in g else [st]
        out = []
        for s1 in sts:
            if s.kind == "elem":
                d = g["=want"]
                if s1.ghost["=a"] <= d:
                    continue
                e = self.elem_at(s1, d)
                if e is None:
                    y = s1.finsym("char", 256)
                    s1.wobj(self.wid(s1)).x["e", lin_add(s1.ghost["pos"], d, 64)] = {0: (fin(y, 8), 1)}
                    s1.note("in", "byte")
                out.append(s1)
                continue
            if s.kind == "emit":
                s1.ghost["=go"] = 1
                out.append(s1)
                continue
            if s.kind == "write":
                for go in ("ok", "error"):
                    s2 = s1.copy()
                    s2.ghost["=go"] = go
                    if go == "error":
                        self.contract_error(s2)
                    else:
                        s2.note("in", "value")
                        self.wrote(s2)
                    out.append(s2)
                continue
            f = g["=asked"]
            known = dict(g["=empt"]).get(f)
            for go in ("empty", "present"):
                if known is not None and known != go:
                    continue
                s2 = s1.copy()
                s2.ghost["=go"] = go
                if known is None:
                    s2.note("in", "%s %s" % (f, "is empty" if go == "empty" else "has a value"))
                    if go == "empty" and not g["=nul"]:
                        s2.ghost["=todo"] = tuple(x for x in g["=todo"] if x != f)
                    if f in s2.ghost["=todo"]:
                        s2.ghost["=empt"] = tuple(sorted(g["=empt"] + ((f, go),)))
                out.append(s2)
        return out

    def contract_error(self, st):
        m, g = self.m, st.ghost
        st.note("in", "<error>")
        if not g["=err"]:
            e = ("P", g["objs"][0][1], self.eoff)
            m.store(st, m.padd(e, self.ei["code"][0]), lin(st.widesym("code", 1, None), 32), 4)
            cell_set(m, st, m.padd(e, self.ei["message"][0]), ("S", (("v", st.widesym("message", 0, None)),)), 32)
            for n in ("line", "column"):
                m.store(st, m.padd(e, self.ei[n][0]), lin(st.widesym(n, 0, None), 32), 4)
            g["err"] = self.error_of(st)
            g["=err"] = 1

    # ---- the text that is emitted
    def feed_atom(self, st, x):
        k = self.kind
        if x[0] == "b":
            v = x[1]
            if type(v) is int:
                v &= 255
            {"message": self.feed_message, "container": self.feed_container, "string": self.feed_string, "bytes": self.feed_bytes,
             "bool": self.feed_word, "field": self.feed_word, "string_field": self.feed_word, "number": self.feed_number, "entity": self.feed_none}[k](st, v)
            return
        if x[0] == "v" and k == "number":
            if st.ghost["=node"] != ("start",):
                self.fail(st, "more than the number is written", "value")
            key = st.facts.get(("numof", x[1]))
            if key is None:
                raise Unmodelled("text that is written")
            T = self.X
            if key[0] not in (T,) and not (type(key[0]) is str and key[0] in NUMBERS and NUMBERS[key[0]] >= NUMBERS[T]):
                raise Unmodelled("text of a number (%s)" % (key[0],))
            if not self.same_value(st, key[1], st.ghost["obj"][0][1]):
                self.fail(st, "another number is written", "value")
            st.ghost["=node"] = ("done",)
            return
        raise Unmodelled("text that is written (%s)" % (x[0],))

    def known(self, st, v):
        if type(v) is not int:
            raise Unmodelled("character that is written")
        return v

    def feed_none(self, st, v):
        self.fail(st, "text is written next to the value", "grammar")

    def feed_number(self, st, v):
        g = st.ghost
        self.known(st, v)
        g["=str"] += chr(v)
        raise Unmodelled("number written by hand")

    def feed_word(self, st, v):
        g = st.ghost
        v = self.known(st, v)
        n = g["=node"]
        if n == ("done",):
            self.fail(st, "text is written after the value", "grammar")
        words = ("true", "false") if self.kind == "bool" else ("null",)
        g["=str"] += chr(v)
        g["=node"] = ("word",)
        if not any(w.startswith(g["=str"]) for w in words):
            self.fail(st, "the text \"%s\" is written" % g["=str"], "value")
        if g["=str"] in words:
            g["=node"] = ("done",)

    def feed_container(self, st, v):
        g = st.ghost
        v = self.known(st, v)
        n = g["=node"][0]
        if v in WS:
            return
        nxt = {("start", 91): "afirst", ("afirst", 93): "done", ("asep", 44): "aval", ("asep", 93): "done"}.get((n, v))
        if nxt is None:
            self.fail(st, "'%s' is written %s" % (chr(v), self.nodename(n)), "grammar")
        if nxt == "done" and (g["=a"] or g["=open"]):
            self.fail(st, "not all elements are written", "array")
        g["=node"] = (nxt,)

    def nodename(self, n):
        return {"start": "before the value", "first": "after '{'", "key": "after ','", "colon": "after a name", "sep": "after a member", "afirst": "after '['",
                "aval": "after ','", "asep": "after an element", "done": "after the value", "val": "in place of a value"}.get(n, n)

    def feed_message(self, st, v):
        g = st.ghost
        v = self.known(st, v)
        n = g["=node"][0]
        if n == "name":
            if v == 34:
                self.named(st, g["=str"].encode("latin1"))
                g["=str"] = ""
                g["=node"] = ("colon",)
            elif v == 92:
                g["=node"] = ("nesc",)
            elif v < 32:
                self.fail(st, "a name with a control character is written", "grammar")
            else:
                g["=str"] += chr(v)
            return
        if n == "nesc":
            if v not in SHORT:
                raise Unmodelled("escape in a name")
            g["=str"] += chr(SHORT[v])
            g["=node"] = ("name",)
            return
        if v in WS:
            return
        nxt = {("start", 123): "first", ("first", 34): "name", ("first", 125): "done", ("colon", 58): "val", ("sep", 44): "key", ("sep", 125): "done", ("key", 34): "name"}.get((n, v))
        if nxt is None:
            if n == "val":
                raise Unmodelled("a value is written by hand")
            self.fail(st, "'%s' is written %s" % (chr(v), self.nodename(n)), "grammar")
        if nxt == "done":
            e = dict(g["=empt"])
            left = [f for f in g["=todo"] if not (e.get(f) == "empty" and not g["=nul"])]
            if left:
                self.fail(st, "the member \"%s\" is not written" % left[0].decode("latin1"), "member")
            self.tick("objects")
        g["=node"] = (nxt,)

    def named(self, st, name):
        g = st.ghost
        if name not in [n for n, _, _ in self.fields]:
            self.fail(st, "a member \"%s\" that the message does not have is written" % name.decode("latin1"), "member")
        if name not in g["=todo"]:
            self.fail(st, "the member \"%s\" is written although it is empty, or twice" % name.decode("latin1"), "member")
        g["=cur"] = name
        g["=todo"] = tuple(x for x in g["=todo"] if x != name)
        if not g["=nul"] and dict(g["=empt"]).get(name) != "present":
            self.fail(st, "the member \"%s\" is written without a value being known to be there" % name.decode("latin1"), "member")
        g["=empt"] = tuple((a, b) for a, b in g["=empt"] if a != name)
        self.tick("members")

    # strings
    def decoded(self, st, bs):
        """the text means these bytes next"""
        g = st.ghost
        for b in bs:
            if g["=a"] == 0 and not g["=open"]:
                self.fail(st, "more characters are written than the string has", "value")
            e = self.elem_at(st, 0)
            if e is None:
                self.fail(st, "a character is written that was not taken from the string", "value")
            c = icmp("eq", b, e, 8)
            if not surely(st, c):
                self.fail(st, "a character is written that means another one", "value")
            self.shift(st, 1)
            self.tick("characters")

    def feed_string(self, st, v):
        g = st.ghost
        n = g["=node"][0]
        if n == "start":
            if self.known(st, v) != 34:
                self.fail(st, "the string does not begin with a quote", "grammar")
            g["=node"] = ("body",)
            return
        if n == "body":
            if st.decide(icmp("eq", v, 34, 8)):
                if g["hi"]:
                    self.fail(st, "half a surrogate pair is written", "value")
                if g["=a"] or g["=open"]:
                    self.fail(st, "the string is cut short", "value")
                g["=node"] = ("done",)
                return
            if st.decide(icmp("eq", v, 92, 8)):
                g["=node"] = ("esc",)
                return
            if st.decide(icmp("ult", v, 32, 8)):
                self.fail(st, "a control character is written as it is", "grammar")
            if g["=asc"] and not st.decide(icmp("ult", v, 128, 8)):
                self.fail(st, "a character beyond ASCII is written although only ASCII was asked for", "ascii")
            if g["hi"]:
                self.fail(st, "half a surrogate pair is written", "value")
            self.decoded(st, [v])
            return
        if n == "esc":
            v = self.known(st, v)
            if v == ord("u"):
                g["=node"], g["hex"] = ("hex",), ()
                return
            if v not in SHORT:
                self.fail(st, "an escape that JSON does not have is written", "grammar")
            if g["hi"]:
                self.fail(st, "half a surrogate pair is written", "value")
            g["=node"] = ("body",)
            self.decoded(st, [SHORT[v]])
            return
        if n == "hex":
            h = retable(v, HEX)
            if not surely(st, icmp("ult", h, 16, 32)):
                self.fail(st, "a character that is not a hexadecimal digit is written", "grammar")
            g["hex"] += (h,)
            if len(g["hex"]) < 4:
                return
            u = 0
            for h in g["hex"]:
                u = binop("or", binop("shl", u, 4, 32), h, 32)
            g["hex"], g["=node"] = (), ("body",)
            self.unit16(st, u)
            return
        self.fail(st, "text is written after the string", "grammar")

    def unit16(self, st, u):
        g = st.ghost
        if g["hi"]:
            hi = g["hi"][0]
            g["hi"] = ()
            if not surely(st, icmp("ult", binop("sub", u, 0xDC00, 32), 0x400, 32)):
                self.fail(st, "half a surrogate pair is written", "value")
            x = binop("add", binop("sub", hi, 0xD800, 32), 0x40, 32)     # bits 10..20 of the character
            t = binop("sub", u, 0xDC00, 32)
            A = lambda v, sh, mk_, o: cast("trunc", binop("or", binop("and", binop("lshr", v, sh, 32), mk_, 32), o, 32), 32, 8)
            b3 = binop("or", binop("shl", binop("and", x, 3, 32), 4, 32), binop("and", binop("lshr", t, 6, 32), 15, 32), 32)
            self.decoded(st, [A(x, 8, 7, 0xF0), A(x, 2, 0x3F, 0x80), cast("trunc", binop("or", b3, 0x80, 32), 32, 8), A(t, 0, 0x3F, 0x80)])
            return
        if st.decide(icmp("ult", u, 0x80, 32)):
            return self.decoded(st, utf8(u, 1))
        if st.decide(icmp("ult", u, 0x800, 32)):
            return self.decoded(st, utf8(u, 2))
        if st.decide(icmp("ult", binop("sub", u, 0xD800, 32), 0x400, 32)):
            g["hi"] = (u,)
            return
        if st.decide(icmp("ult", binop("sub", u, 0xDC00, 32), 0x400, 32)):
            self.fail(st, "half a surrogate pair is written", "value")
        self.decoded(st, utf8(u, 3))

    def invalid_utf8(self, st):
        """what follows in the string cannot be UTF-8: decides, splitting the state"""
        g = st.ghost

        def inside(k, lo, hi):
            e = self.elem_at(st, k)
            return e is None or st.decide(icmp("ule", binop("sub", e, lo, 8), hi - lo, 8))
        if g["=a"] == 0:
            return False
        if self.elem_at(st, 0) is None:
            return False
        for l0, h0, l1, h1, n in ((0, 0x7F, 0, 0, 1), (0xC2, 0xDF, 0x80, 0xBF, 2), (0xE0, 0xE0, 0xA0, 0xBF, 3), (0xE1, 0xEC, 0x80, 0xBF, 3), (0xED, 0xED, 0x80, 0x9F, 3),
                                  (0xEE, 0xEF, 0x80, 0xBF, 3), (0xF0, 0xF0, 0x90, 0xBF, 4), (0xF1, 0xF3, 0x80, 0xBF, 4), (0xF4, 0xF4, 0x80, 0x8F, 4)):
            if not inside(0, l0, h0):
                continue
            for k in range(1, n):
                if k >= g["=a"]:
                    return True     # the text ends within the character
                if not inside(k, *((l1, h1) if k == 1 else (0x80, 0xBF))):
                    return True
            # what is known about the bytes together may exclude this
            x = 0
            for k in range(4):
                e = self.elem_at(st, k)
                if e is not None:
                    x = binop("add", x, cast("zext", e, 8, 32), 32)
            st.decide(icmp("ult", x, 5000, 32))
            return False
        return True

    # bytes
    def feed_bytes(self, st, v):
        g = st.ghost
        n = g["=node"][0]
        if n == "start":
            if self.known(st, v) != 34:
                self.fail(st, "the text does not begin with a quote", "grammar")
            g["=node"] = ("body",)
            return
        if n == "done":
            self.fail(st, "text is written after the value", "grammar")
        if not g["grp"] and st.decide(icmp("eq", v, 34, 8)):
            if g["=a"] or g["=open"]:
                self.fail(st, "not all bytes are written", "value")
            g["=node"] = ("done",)
            return
        g["grp"] += (v,)
        if len(g["grp"]) < 4:
            return
        a = min(g["=a"], 3)
        if a == 0:
            self.fail(st, "more text is written than there are bytes", "value")
        es = []
        for k in range(a):
            e = self.elem_at(st, k)
            if e is None:
                self.fail(st, "a byte is not taken from the value", "value")
            es.append(cast("zext", e, 8, 32))
        es += [0] * (3 - a)

        def field(x, sh, mk_):
            return binop("and", binop("lshr", x, sh, 32), mk_, 32)
        ix = [field(es[0], 2, 63),
              binop("or", binop("shl", field(es[0], 0, 3), 4, 32), field(es[1], 4, 15), 32),
              binop("or", binop("shl", field(es[1], 0, 15), 2, 32), field(es[2], 6, 3), 32),
              field(es[2], 0, 63)]
        want = [lookup(ALPHABET, i) for i in ix]
        if a < 3:
            want[3] = ord("=")
        if a < 2:
            want[2] = ord("=")
        for w, x in zip(want, g["grp"]):
            if not surely(st, icmp("eq", w, x, 8)):
                self.fail(st, "the text written is not the base64 form of the bytes", "base64")
        g["grp"] = ()
        self.shift(st, a)
        self.tick("groups")

    # ---- calls
    def check_ctx(self, st, p):
        if p != ("P", st.ghost["objs"][0][1], 0):
            self.fail(st, "a codec is called with another context", "context")
        if self.m.load(st, self.m.padd(p, self.ctx["os"][0]), "ptr") != ("P", st.ghost["objs"][1][1], 0):
            self.fail(st, "a codec is called with another stream", "context")
        for n, x in (("ensure_ascii", st.ghost["=asc"]), ("serialize_null", st.ghost["=nul"])):
            if not self.same_value(st, self.m.load(st, self.m.padd(p, self.ctx["params"][0] + self.par[n][0]), "i8"), x):
                self.fail(st, "a codec is called with other parameters", "context")

    def check_write(self, st, s):
        g = st.ghost
        X, Y, a = s.info
        self.callees.add(X)
        self.check_ctx(st, a[0])
        if g["=err"]:
            return
        n = g["=node"][0]
        p = a[1]
        k = self.kind
        if k == "entity" and n == "start":
            if p != self.objp(st) or X + "" not in (self.Y, self.X):
                self.fail(st, "another object is written", "value")
            return
        if k in ("field", "string_field") and n == "start":
            v = self.snapshot(st, Y, p)
            mine = self.part(st)
            if len(v) != 1 or not self.same_value(st, v[0][1], mine):
                self.fail(st, "another value is written", "value")
            return
        if k == "message" and n == "val":
            f = [x for x in self.fields if x[0] == g["=cur"]][0]
            if p[0] != "P" or p[1] != g["objs"][2][1] or type(p[2]) is not int or p[2] != f[1] + self.base_of(Y, f[2]):
                self.fail(st, "the value written for \"%s\" is not that of the member" % f[0].decode("latin1"), "member")
            if X != f[2]:
                raise Unmodelled("codec %s for a member of type %s" % (X, f[2]))
            return
        if k == "container" and n in ("afirst", "aval"):
            if g["=a"] == 0 and not g["=open"]:
                self.fail(st, "more elements are written than there are", "array")
            e = split_targs(self.X)[0]
            if X != e:
                raise Unmodelled("codec %s for an element of type %s" % (X, e))
            sid = self.wid(st)
            if p[0] == "P" and p[1] == sid:
                es = self.types.size(e) if e != "bool" else 1
                off = lin_add(p[2], -self.base_of(Y, e), 64) if self.base_of(Y, e) else p[2]
                if difference(off, lin_scale(g["pos"], es, 64)) != 0:
                    self.fail(st, "the elements are not written in order", "array")
                return
            cur = self.elem_at(st, 0)
            v = self.snapshot(st, Y, p)
            if cur is None:
                self.fail(st, "a value is written that is not the next element", "array")
            cells = [c for key, c in st.mem[sid].x.items() if type(key) is tuple and key[0] == "e" and difference(key[1], g["pos"]) == 0][0]
            for off, x, size in v:
                if off not in cells or not self.same_value(st, x, cells[off][0]):
                    self.fail(st, "a value is written that is not the next element", "array")
            return
        self.fail(st, "a value is written %s" % self.nodename(n), "grammar")

    def wrote(self, st):
        g = st.ghost
        if g["=err"]:
            return
        k = self.kind
        if k == "container":
            self.shift(st, 1)
            g["=node"] = ("asep",)
            self.tick("elements")
        elif k == "message":
            g["=node"], g["=cur"] = ("sep",), ""
        else:
            g["=node"] = ("done",)

    def part(self, st):
        """the value of a field"""
        for (off, v, size), lf in zip(st.ghost["obj"], self.types.leaves(self.Y)):
            if lf[4].startswith(".value"):
                return v
        raise Anchor("value of " + self.X)

    def mark(self, st):
        for (off, v, size), lf in zip(st.ghost["obj"], self.types.leaves(self.Y)):
            if not lf[4].startswith(".value"):
                return v
        raise Anchor("mark of " + self.X)

    def check_empty(self, st, s):
        g = st.ghost
        X, Y, a = s.info
        g["=asked"] = ""
        p = a[0]
        if self.kind != "message":
            raise Unmodelled("a codec is asked whether a value is empty")
        if p[0] == "P" and p[1] == g["objs"][2][1] and type(p[2]) is int:
            for n, off, ty in self.fields:
                if p[2] == off + self.base_of(Y, ty) and X == ty:
                    g["=asked"] = n
                    return
        raise Unmodelled("a codec is asked whether another value is empty")

    # ---- the end
    def on_return(self, st, val):
        g = st.ghost
        if type(val) is not int:
            if type(val) is tuple and val[0] == "T":
                vs = {x for i, x in enumerate(val[2]) if st.dom[val[1]] >> i & 1}
                if len(vs) > 1:
                    raise ForkSym(val[1], [sum(1 << i for i, x in enumerate(val[2]) if x == v) for v in vs])
                val = vs.pop()
            else:
                raise Unmodelled("status returned")
        err = self.error_of(st)
        if self.kind not in ("string", "bytes", "container") and not self.same_snap(st, self.value_now(st), g["obj"]):
            self.fail(st, "the value is changed by writing it", "value")
        if val == OK:
            if g["=err"]:
                self.fail(st, "success is reported although a part failed", "error")
            if not surely(st, icmp("eq", err[0], 0, 32)):
                self.fail(st, "success is reported after an error was recorded", "error")
            if g["=node"] != ("done",):
                self.fail(st, "success is reported before the value is complete (%s)" % self.nodename(g["=node"][0]), "grammar")
            if self.kind == "bool":
                v = g["obj"][0][1]
                if not surely(st, icmp("eq" if g["=str"] == "false" else "ne", v, 0, 8)):
                    self.fail(st, "the other truth value is written", "value")
            if self.kind in ("field", "string_field"):
                self.presence(st)
            self.tick("completions")
            return ()
        if surely(st, icmp("eq", err[0], 0, 32)):
            self.fail(st, "failure is reported without an error code", "error")
        if not surely(st, icmp("ne", err[0], 0, 32)):
            raise Unmodelled("error code")
        if g["=err"]:
            if any(not self.same_value(st, x, y) for x, y in zip(err, g["err"])):
                self.fail(st, "an error that was recorded is replaced", "error")
            self.tick("failures")
            return ()
        if self.kind == "string" and g["=asc"]:
            if not self.invalid_utf8(st):
                self.fail(st, "a string is refused that can be written", "refuse")
            if not err[1][1]:
                self.fail(st, "the error has no message", "error")
            self.tick("failures")
            return ()
        self.fail(st, "a value is refused that can be written", "refuse")

    def presence(self, st):
        g = st.ghost
        d = {lf[4]: dv for lf, (_, dv, _) in zip(self.types.leaves(self.Y), self.default(self.X))}
        mark = [lf[4] for lf in self.types.leaves(self.Y) if not lf[4].startswith(".value")]
        absent = icmp("eq", self.mark(st), d[mark[0]], 8)
        if g["=str"] == "null":
            if not st.decide(absent):
                self.fail(st, "a value that is present is written as null", "presence")
            if self.kind == "string_field":
                v = self.part(st)
                if v[1] and not surely(st, icmp("eq", models.s_len(v), 0, 64)):
                    self.fail(st, "a text is written as null", "presence")
        else:
            v = self.part(st)
            if st.decide(absent):
                if self.kind == "string_field" and v[1] and not surely(st, icmp("eq", models.s_len(v), 0, 64)):
                    return
                self.fail(st, "a value that is absent is written", "presence")


WRITE = re.compile(r"^protogen_\w+::json<(.*), void>::write\(")


def writers(mod, ns):
    out = []
    for f in mod.funcs.values():
        mm = WRITE.match(f.dem)
        if mm and not f.decl:
            out.append((f, mm.group(1)))
    return sorted(out, key=lambda x: x[0].dem)


# ---- whole documents
SER = re.compile(r"^(?P<own>.*)::serialize\((?P<ns>protogen_\w+)::(?:internal::)?ostream&, protogen_\w+::Parameters\*\) const$")
SERA = re.compile(r"^bool (?P<ns>protogen_\w+)::serialize_array<(?P<c>.*), 0>\((?P<c2>.*) const&, protogen_\w+::(?:internal::)?ostream&, protogen_\w+::Parameters\*\)$")


def documents(mod):
    """the functions that write a whole document: [(function, type of the object)]"""
    out = []
    for f in mod.funcs.values():
        if f.decl:
            continue
        mm = SER.match(f.dem)
        if mm and "::message<" not in mm.group("own"):
            out.append((f, mm.group("own")))
        mm = SERA.match(f.dem)
        if mm:
            out.append((f, mm.group("c2")))
    return sorted(out, key=lambda x: x[0].dem)


class Document(Write):
    """serialize and serialize_array: one value written by the codec of the type to the stream that was given, with the
    parameters that were given, and the outcome handed to the caller"""

    def __init__(self, mod, ns, entry, X):
        Write.__init__(self, mod, ns, entry)
        self.X = self.Y = X
        self.kind = self.types.kind(X)

    def start(self):
        return [self.start1(0), self.start1(1)]

    def start1(self, given):
        st = State()
        m, g = self.m, st.ghost
        obj = st.alloc("heap", "object", self.types.size(self.X))
        os = self.make_os(st)
        par = st.alloc("heap", "params", self.types.t[self.ns + "::Parameters"]["size"])
        g["objs"] = (("#obj", 0), ("#obj", os), ("#obj", obj), ("#obj", par))
        g["=node"], g["=go"], g["=err"], g["err"], g["=given"], g["ctx"] = ("start",), 0, 0, 0, given, 0
        for n in ("ensure_ascii", "serialize_null"):
            m.store(st, ("P", par, self.par[n][0]), ("T", st.finsym(n, 2), (0, 1), 8), 1)
        g["flags"] = tuple(m.load(st, ("P", par, self.par[n][0]), "i8") for n in ("ensure_ascii", "serialize_null"))
        e = ("P", par, self.par["error"][0])
        m.store(st, m.padd(e, self.ei["code"][0]), lin(st.widesym("earlier code", 0, None), 32), 4)
        cell_set(m, st, m.padd(e, self.ei["message"][0]), ("S", (("v", st.widesym("earlier message", 0, None)),)), 32)
        for n in ("line", "column"):
            m.store(st, m.padd(e, self.ei[n][0]), lin(st.widesym(n, 0, None), 32), 4)
        g["obj"] = self.fill(st, self.X, ("P", obj, 0))
        st.note("in", "parameters given" if given else "no parameters")
        m.call_function(st, self.entry, [("P", obj, 0), ("P", os, 0), ("P", par, 0) if given else 0])
        return st

    def abstract(self, st, s):
        g = st.ghost
        m = self.m
        if s.kind == "emit":
            self.fail(st, "text is written next to the document", "document")
        if s.kind != "write":
            raise Unmodelled("unexpected request " + s.kind)
        X, Y, a = s.info
        self.callees.add(X)
        if g["=node"] != ("start",):
            self.fail(st, "the document is written twice", "document")
        ctx = a[0]
        if m.load(st, m.padd(ctx, self.ctx["os"][0]), "ptr") != ("P", g["objs"][1][1], 0):
            self.fail(st, "the document is written to another stream", "document")
        p = m.padd(ctx, self.ctx["params"][0])
        for n, v in zip(("ensure_ascii", "serialize_null"), g["flags"]):
            if not self.same_value(st, m.load(st, m.padd(p, self.par[n][0]), "i8"), v if g["=given"] else 0):
                self.fail(st, "the parameters of the caller are not used" if g["=given"] else "the parameters are not the default ones", "context")
        if not surely(st, icmp("eq", self.error_of(st, m.padd(p, self.par["error"][0]))[0], 0, 32)):
            self.fail(st, "an error of an earlier call is kept", "error")
        q = a[1]
        if q[0] != "P" or q[1] != g["objs"][2][1] or q[2] != self.base_of(Y, self.X):
            self.fail(st, "another object is written", "document")
        if X not in (self.X, Y):
            self.fail(st, "the document is written by the codec of another type", "document")
        g["ctx"] = ctx
        self.tick("documents")
        return []

    def resume(self, st, s):
        out = []
        for go in ("ok", "error"):
            s2 = st.copy()
            g2 = s2.ghost
            m = self.m
            e = m.padd(g2["ctx"], self.ctx["params"][0] + self.par["error"][0])
            s2.note("in", "written" if go == "ok" else "failed")
            if go == "error":
                m.store(s2, m.padd(e, self.ei["code"][0]), lin(s2.widesym("code", 1, None), 32), 4)
                cell_set(m, s2, m.padd(e, self.ei["message"][0]), ("S", (("v", s2.widesym("message", 0, None)),)), 32)
                for n in ("line", "column"):
                    m.store(s2, m.padd(e, self.ei[n][0]), lin(s2.widesym(n, 0, None), 32), 4)
            g2["err"] = self.error_of(s2, e)
            g2["=node"], g2["=role"], g2["=go"] = ("done",), go, go
            out.append(s2)
        return out

    def on_return(self, st, val):
        g = st.ghost
        m = self.m
        if type(val) is tuple and width(val) == 1:
            val = int(st.decide(val))
        val = val & 1 if type(val) is int else val
        if type(val) is not int:
            raise Unmodelled("result")
        if g["=node"] != ("done",):
            self.fail(st, "the call ends without having written the document", "document")
        go = g["=role"]
        if (go == "ok") != (val == 1):
            self.fail(st, {"ok": "failure is reported for a document that was written", "error": "success is reported after an error"}[go], "error")
        if not self.same_snap(st, self.snapshot(st, self.X, ("P", g["objs"][2][1], 0)), g["obj"]):
            self.fail(st, "the object is changed by writing it", "document")
        if g["=given"]:
            par = g["objs"][3][1]
            for n, v in zip(("ensure_ascii", "serialize_null"), g["flags"]):
                if not self.same_value(st, m.load(st, ("P", par, self.par[n][0]), "i8"), v):
                    self.fail(st, "the parameters of the caller are changed", "error")
            err = self.error_of(st, ("P", par, self.par["error"][0]))
            if go == "ok":
                if not surely(st, icmp("eq", err[0], 0, 32)):
                    self.fail(st, "success leaves an error code", "error")
            elif any(not self.same_value(st, x, y) for x, y in zip(err, g["err"])):
                self.fail(st, "the error handed to the caller is not the one recorded", "error")
        self.tick("outcomes")
        return ()
