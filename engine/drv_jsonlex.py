"""JSON lexer: class tokenizer over a character stream, against the lexical grammar of RFC 8259.

The real stream class (iterator_istream over std::string iterators) and the tokenizer are
interpreted on a byte sequence of unknown length and contents. A reference automaton advances
with every byte the code looks at; whenever the tokenizer delivers a token, its kind, text,
line and column must be those of the reference."""
from .explore import *
from .models import MODELS, getS, s_at, streq, piece_of, s_atoms
from . import models
from .finite import LIMIT, refuted

WS = b" \t\r\n"
PUNCT = {ord("{"): "OBJS", ord("}"): "OBJE", ord("["): "ARRS", ord("]"): "ARRE", ord(":"): "COLON", ord(","): "COMMA"}
WORDS = {b"true": "BTRUE", b"false": "BFALSE", b"null": "NIL"}
ESC = {ord('"'): 34, ord("\\"): 92, ord("/"): 47, ord("b"): 8, ord("f"): 12, ord("n"): 10, ord("r"): 13, ord("t"): 9}
LETTERS = bytes(range(65, 91)) + bytes(range(97, 123))
HEX = b"0123456789abcdefABCDEF"
DIG = b"0123456789"


def mask(bs):
    m = 0
    for b in bs:
        m |= 1 << b
    return m


ALL = (1 << 256) - 1


class Ref:
    """reference lexer. node: the state of the automaton. classes(node) partitions the bytes;
    step(driver, st, node, cls, byte) consumes or ends the token"""

    NUM = {  # node -> {class: next}
        "start": None,
        "-": {"0": "int0", "19": "int"},
        "int0": {".": "dot", "eE": "e"},
        "int": {"0": "int", "19": "int", ".": "dot", "eE": "e"},
        "dot": {"0": "frac", "19": "frac"},
        "frac": {"0": "frac", "19": "frac", "eE": "e"},
        "e": {"+-": "esign", "0": "exp", "19": "exp"},
        "esign": {"0": "exp", "19": "exp"},
        "exp": {"0": "exp", "19": "exp"},
    }
    NUMFINAL = {"int0", "int", "frac", "exp"}
    NUMCLS = {"0": b"0", "19": b"123456789", ".": b".", "eE": b"eE", "+-": b"+-"}

    def classes(self, node):
        """list of (name, mask)"""
        k = node[0]
        if k == "start":
            out = [("ws", mask(b" \t\r")), ("nl", mask(b"\n")), ('"', mask(b'"')), ("-", mask(b"-")), ("0", mask(b"0")), ("19", mask(b"123456789"))]
            out += [(chr(p), mask([p])) for p in PUNCT]
            firsts = bytes(sorted({w[0] for w in WORDS}))
            out += [("w" + chr(c), mask([c])) for c in firsts]
            out.append(("letter", mask(bytes(c for c in LETTERS if c not in firsts))))
            return self.rest(out)
        if k == "num":
            out = [(c, mask(self.NUMCLS[c])) for c in self.NUM[node[1]]]
            return self.rest(out)
        if k == "word":
            nxt = bytes(sorted({w[len(node[1])] for w in WORDS if node[1] is not None and w.startswith(node[1]) and len(w) > len(node[1])})) if node[1] is not None else b""
            out = [("w" + chr(c), mask([c])) for c in nxt]
            out.append(("letter", mask(bytes(c for c in LETTERS if c not in nxt))))
            return self.rest(out)
        if k == "str":
            return self.rest([('"', mask(b'"')), ("\\", mask(b"\\")), ("nul", 1), ("nl", mask(b"\n"))])
        if k == "lead":
            return self.rest([("\\", mask(b"\\"))])
        if k == "leadesc":
            return self.rest([("u", mask(b"u"))])
        if k == "esc":
            return self.rest([(chr(c), mask([c])) for c in sorted(ESC)] + [("u", mask(b"u"))])
        if k == "hex":
            return self.rest([("hex", mask(HEX))])
        return [("any", ALL)]

    def rest(self, out):
        m = ALL
        for _, x in out:
            m &= ~x
        return out + [("other", m & ~mask(b"\n")), ("otherNL", m & mask(b"\n"))] if m & mask(b"\n") else out + [("other", m)]


HEXVAL = tuple(int(chr(c), 16) if c in HEX else 0 for c in range(256))


class JsonLex(Driver):
    name = "jsonlex"
    moving = ("pos", "line", "col", "tok", "elem")

    def __init__(self, mod, ns, iterator="string"):
        Driver.__init__(self, mod, MODELS)
        self.ref = Ref()
        models.KEYWORDS.clear()
        models.KEYWORDS.update(WORDS)
        self.tokens = {}
        tk = [n for n in mod.types if n.endswith("::tokenizer") and "members" in mod.types[n]]
        self.ns = ns
        self.T = self.anchor_type("tokenizer")
        self.TT = self.anchor_type("token")
        self.EN = self.anchor_type("token_id")
        self.PT = self.anchor_type("Parameters")
        self.ids = mod.types[self.EN]["enum"]
        for k in ("NONE", "EOS", "OBJS", "OBJE", "COLON", "COMMA", "STRING", "ARRS", "ARRE", "NIL", "BTRUE", "BFALSE", "NUMBER"):
            if k not in self.ids:
                raise Anchor("token_id::" + k)
        self.mem = {n: off for n, off, _, _ in mod.types[self.TT]["members"]}
        for k in ("id", "value", "line", "column"):
            if k not in self.mem:
                raise Anchor("token::" + k)
        T = re.escape(self.T)
        self.f_ctor = self.one(r"^" + T + r"::tokenizer\(")
        self.f_next = self.one(r"^" + T + r"::next\(\)$")
        self.f_peek = self.one(r"^" + T + r"::peek\(\)$")
        self.f_is = self.one(r"::iterator_istream<__gnu_cxx::__normal_iterator<char const\*, std::string>>::iterator_istream\(")
        self.IS = [t for t in mod.types if "iterator_istream<__gnu_cxx::__normal_iterator<const char" in t or "iterator_istream<__gnu_cxx::__normal_iterator<char const" in t]

    def anchor_type(self, n):
        c = [t for t in self.mod.types if t.split("::")[-1] == n and t.split("::")[0].startswith("protogen_") and ("members" in self.mod.types[t] or "enum" in self.mod.types[t])]
        if len(c) != 1:
            raise Anchor("type " + n)
        return c[0]

    def one(self, rx):
        c = [f for f in self.mod.find(rx)]
        # complete object constructors only
        c2 = [f for f in c if "C1E" in f.name] or [f for f in c if "C2E" in f.name] or c
        if len(c2) != 1:
            raise Anchor("%s (%d found)" % (rx, len(c2)))
        return c2[0]

    # ---- the analysed program: stream; tokenizer; then peek and next for ever
    def start(self):
        st = State()
        n = st.widesym("length", 0, None)
        seq = st.alloc("seq", "the input", x={"esize": 1, "n": lin(n), "input": True})
        a = st.alloc("alloca", "first", 8, {0: (("P", seq, 0), 8)})
        b = st.alloc("alloca", "last", 8, {0: (("P", seq, lin(n)), 8)})
        is_ = st.alloc("heap", "stream", 4096)
        tok = st.alloc("heap", "tokenizer", self.mod.types[self.T]["size"])
        par = st.alloc("heap", "parameters", self.mod.types[self.PT]["size"])
        err = [off for nme, off, t, _ in self.mod.types[self.PT]["members"] if t.endswith("ErrorInfo")]
        et = self.anchor_type("ErrorInfo")
        for nme, off, t, size in self.mod.types[et]["members"]:
            st.mem[par].cells[err[0] + off] = ((("S", ()), 32) if "basic_string" in t or t == "std::string" else (0, 4))
        st.ghost["objs"] = (("#obj", seq), ("#obj", is_), ("#obj", tok), ("#obj", par))
        st.ghost["=step"] = "stream"
        st.ghost["=node"] = ("start",)
        st.ghost["pos"] = 0         # bytes consumed or looked at by the reference
        st.ghost["line"], st.ghost["col"] = 1, 1      # place of the next byte to be looked at
        st.ghost["tok"] = (0, 0)
        st.ghost["out"] = ("S", ())
        st.ghost["=pending"] = False    # the last byte looked at belongs to the next token
        st.ghost["aux"] = ()
        st.ghost["lead"] = 0
        st.ghost["=bad"] = None
        st.ghost["pb"] = 0
        self.m.call_function(st, self.f_is, [("P", is_, 0), ("P", a, 0), ("P", b, 0)])
        return st

    def objs(self, st):
        return [o[1] for o in st.ghost["objs"]]

    # ---- environment: bytes
    def abstract(self, st, s):
        if s.kind != "elem":
            raise Unmodelled("unexpected request " + s.kind)
        rest = focus(st, s)
        self.lead(st)
        if st.ghost["=node"][:2] == ("done", "NONE"):
            forget_texts(st)
        opaque(st, "out", st.ghost["=node"][0] == "word" and st.ghost["=node"][1] is not None,
               st.ghost["=node"] == ("word", None))
        return rest

    def lead(self, st):
        """a lead surrogate read from four digits becomes one unknown"""
        v = st.ghost["lead"]
        if type(v) is not tuple or v[0] != "X":
            return
        s = st.finsym("lead", 1024)
        new = ("T", s, tuple(range(0xD800, 0xDC00)), 32)

        def g(x):
            if type(x) is not tuple or not x:
                return x
            if x[0] == "X":
                if syms_of(x) == syms_of(v):
                    w = width(x)
                    if w >= 16 and surely(st, icmp("eq", x, cast("zext", v, 32, w) if w != 32 else v, w)):
                        return cast("zext", new, 32, w)
                return x
            if x[0] in ("S", "A"):
                return (x[0], tuple(g(y) for y in x[1]))
            return x
        for fr in st.frames:
            fr.regs = {r: g(x) for r, x in fr.regs.items()}
        for i in list(st.mem):
            o = st.mem[i]
            if any(type(c[0]) is tuple and c[0][0] == "X" for c in o.cells.values()):
                o = st.wobj(i)
                o.cells = {k: ((g(c[0]),) + tuple(c[1:])) for k, c in o.cells.items()}
        st.ghost["lead"] = new

    def resume(self, st, s):
        (_, sid), idx = st.ghost["elem"]
        d = difference(idx, st.ghost["pos"])
        if d is None:
            raise Unmodelled("place of the stream unrelated to the reference")
        if d < 0:
            s2 = st.copy()
            b = s2.finsym("byte", 256)
            s2.wobj(sid).x["e", idx] = {0: (fin(b, 8), 1)}
            return [s2]
        states = [st]
        for k in range(d + 1):
            nxt = []
            for s1 in states:
                for cls, msk in self.ref.classes(s1.ghost["=node"]):
                    if not msk:
                        continue
                    s2 = s1.copy()
                    b = fin(s2.finsym("byte", 256, msk), 8)
                    if k == d:
                        s2.wobj(sid).x["e", idx] = {0: (b, 1)}
                    s2.note("in", cls)
                    nxt += self.forked(s2, lambda x, cls=cls, b=b: self.feed(x, cls, b))
            states = nxt
        return states

    # ---- reference
    def feed(self, st, cls, b, again=False):
        """the reference looks at the next byte"""
        g = st.ghost
        node = g["=node"]
        if not again:
            g["pos"] = lin_add(g["pos"], 1, 64)
        if node[0] == "done":
            if node[1] == "NONE":
                return
            if g["=pending"]:
                raise Unmodelled("the lexer looks two bytes ahead")
            g["=pending"], g["pb"] = True, b
            return

        def advance():
            if cls in ("nl", "otherNL"):
                g["line"], g["col"] = lin_add(g["line"], 1, 64), 1
            else:
                g["col"] = lin_add(g["col"], 1, 64)

        def pend(kind):
            g["=node"] = ("done", kind)
            g["=pending"], g["pb"] = True, b

        def emit(v):
            g["out"] = s_cat(g["out"], ("S", (piece_of(v),)))

        k = node[0]
        if k == "start":
            if cls in ("ws", "nl"):
                advance()
                return
            g["tok"] = (g["line"], g["col"])
            g["out"] = ("S", ())
            if cls == '"':
                g["=node"] = ("str",)
            elif cls in ("-", "0", "19"):
                g["=node"] = ("num", {"-": "-", "0": "int0", "19": "int"}[cls])
                emit(b)
            elif len(cls) == 1:
                g["=node"] = ("done", PUNCT[ord(cls)])
            elif cls[0] == "w" and len(cls) == 2:
                g["=node"] = ("word", cls[1:].encode())
                emit(b)
            elif cls == "letter":
                g["=node"] = ("word", None)
                emit(b)
            else:
                g["=node"] = ("done", "NONE")
            advance()
            return
        if k == "num":
            t = Ref.NUM[node[1]].get(cls)
            if t is None:
                pend("NUMBER" if node[1] in Ref.NUMFINAL else "NONE")
                return
            g["=node"] = ("num", t)
            emit(b)
            advance()
            return
        if k == "word":
            if cls[0] == "w" and len(cls) == 2:
                g["=node"] = ("word", node[1] + cls[1:].encode())
            elif cls == "letter":
                g["=node"] = ("word", None)
            else:
                pend(WORDS.get(node[1], "NONE"))
                return
            emit(b)
            advance()
            return
        advance()
        if k == "str":
            if cls == '"':
                g["=node"] = ("done", "STRING")
            elif cls == "\\":
                g["=node"] = ("esc",)
            elif cls == "nul":
                g["=node"] = ("done", "NONE", "str")
            else:
                emit(b)
            return
        if k in ("lead", "leadesc"):
            if cls == "\\" and k == "lead":
                g["=node"] = ("leadesc",)
            elif cls == "u" and k == "leadesc":
                g["=node"], g["aux"] = ("hex", 0, True), ()
            else:
                g["=node"] = ("done", "NONE", "str")
            return
        if k == "esc":
            if cls == "u":
                g["=node"], g["aux"] = ("hex", 0, False), ()
            elif len(cls) == 1:
                emit(ESC[ord(cls)])
                g["=node"] = ("str",)
            else:
                g["=node"] = ("done", "NONE", "str")
            return
        if k == "hex":
            if cls != "hex":
                g["=node"], g["aux"], g["lead"] = ("done", "NONE", "str"), (), 0
                return
            g["aux"] = g["aux"] + (mktab(b[1], HEXVAL, 32),)
            if node[1] < 3:
                g["=node"] = ("hex", node[1] + 1, node[2])
                return
            cp = 0
            for d in g["aux"]:
                cp = binop("add", binop("mul", cp, 16, 32), d, 32)
            g["aux"] = ()
            low = st.decide(icmp("uge", cp, 0xDC00, 32)) and st.decide(icmp("ule", cp, 0xDFFF, 32))
            if node[2]:
                if not low:
                    g["=node"], g["lead"] = ("done", "NONE", "str"), 0
                    return
                cp = binop("add", binop("add", binop("shl", binop("sub", g["lead"], 0xD800, 32), 10, 32), binop("sub", cp, 0xDC00, 32), 32), 0x10000, 32)
                g["lead"] = 0
                n = 4
            elif low:
                g["=node"] = ("done", "NONE", "str")
                return
            elif st.decide(icmp("uge", cp, 0xD800, 32)) and st.decide(icmp("ule", cp, 0xDBFF, 32)):
                g["lead"] = cp
                g["=node"] = ("lead",)
                return
            elif st.decide(icmp("ule", cp, 0x7F, 32)):
                n = 1
            elif st.decide(icmp("ule", cp, 0x7FF, 32)):
                n = 2
            else:
                n = 3
            for v in utf8(cp, n):
                emit(v)
            g["=node"] = ("str",)
            return
        raise Unmodelled("reference state %s" % (node,))

    def finish(self, st):
        """verdict of the reference when the code delivers a token: name of its kind"""
        g = st.ghost
        node = g["=node"]
        if node[0] == "done":
            return node[1]
        if node == ("word", None):
            return "NONE"
        n = st.mem[self.objs(st)[0]].x["n"]
        if not st.decide(icmp("eq", g["pos"], n, 64)):
            raise Violation("a token is delivered before its end (%s)" % self.nodename(node), rule="token-kind" if node[0] in ("start", "num", "word") else "string-kind", where=self.here())
        k = node[0]
        if k == "start":
            g["tok"] = (g["line"], g["col"])
            g["out"] = ("S", ())
            return "EOS"
        if k == "num":
            return "NUMBER" if node[1] in Ref.NUMFINAL else "NONE"
        if k == "word":
            return WORDS.get(node[1], "NONE")
        return "NONE"

    def nodename(self, node):
        return {"start": "before a token", "num": "in a number", "word": "in a word"}.get(node[0], "in a string")

    # ---- the sequence of calls
    def on_return(self, st, val):
        g = st.ghost
        seq, is_, tok, par = self.objs(st)
        step = g["=step"]
        if step == "stream":
            g["=step"] = "ctor"
            self.m.call_function(st, self.f_ctor, [("P", tok, 0), ("P", is_, 0), ("P", par, 0)])
            return [st]
        if step in ("ctor", "next"):
            g["=step"] = "peek"
            self.m.call_function(st, self.f_peek, [("P", tok, 0)])
            return [st]
        # peek: the current token
        kind = self.finish(st)
        name = [k for k, v in self.ids.items()]
        self.tokens[kind] = self.tokens.get(kind, 0) + 1

        def fld(n, t):
            return self.m.load(st, self.m.padd(val, self.mem[n]), t)
        idv = fld("id", "i32")
        if not st.decide(icmp("eq", idv, self.ids[kind], 32)):
            got = [k for k, v in self.ids.items() if v == idv]
            raise Violation("the lexer delivers %s where the grammar has %s" % (got[0] if got else show(idv), kind), rule="string-kind" if "STRING" in (kind, got and got[0]) or g["=node"][0] not in ("done", "start", "num", "word") or g["=node"][2:] == ("str",) else "token-kind", where=self.here())
        tv = getS(self.m, st, self.m.padd(val, self.mem["value"]))
        want = g["out"] if kind in ("STRING", "NUMBER") else ("S", ())
        if kind in ("STRING", "NUMBER"):
            self.same_text(st, tv, want, kind)
        for k, n in ((0, "line"), (1, "column")):
            v = fld(n, "i32")
            if not surely(st, icmp("eq", v, g["tok"][k], 64)):
                raise Violation("the %s of a token (%s) is not where it starts" % (n, kind), rule="position", where=self.here())
        if kind in ("NONE", "EOS"):
            return []
        g["=node"], g["=step"] = ("start",), "next"
        g["out"], g["aux"], g["lead"], g["=bad"] = ("S", ()), (), 0, None

        def start(st):
            g = st.ghost
            if g["=pending"]:
                b = g["pb"]
                g["=pending"], g["pb"] = False, 0
                for cls, msk in self.ref.classes(("start",)):
                    if st.dom[b[1]] & msk:
                        if st.dom[b[1]] & ~msk:
                            raise ForkSym(b[1], [m for _, m in self.ref.classes(("start",))])
                        self.feed(st, cls, b, True)
                        break
            self.m.call_function(st, self.f_next, [("P", tok, 0)])
        st.ghost["=pending"] = g["=pending"]
        return self.forked2(st, start)

    def forked2(self, st, f):
        def h(s):
            g = s.ghost
            if g["=pending"]:
                b = g["pb"]
                ms = [m for _, m in self.ref.classes(("start",)) if s.dom[b[1]] & m]
                if len(ms) > 1:
                    raise ForkSym(b[1], ms)
            f(s)
        return self.forked(st, h)

    def here(self):
        return (self.f_next.where(), self.f_next.dem)

    def same_text(self, st, a, b, kind):
        """both texts must be the same for every value of the unknowns"""
        r = streq(self.m, st, a, b)
        if type(r) is int and r == 1:
            return
        try:
            ok = surely(st, r)
        except Unmodelled:
            if not st.ghost["=bad"]:
                raise
            raise Violation("the text of a %s token is not the text of the grammar: it has %s" % (kind, st.ghost["=bad"]), rule="string-text" if kind == "STRING" else "number-text", where=self.here())
        if not ok:
            raise Violation("the text of a %s token is not the text of the grammar: %s instead of %s" % (kind, show(a)[:150], show(b)[:150]), rule="string-text" if kind == "STRING" else "number-text", where=self.here())


def surely(st, c):
    """the condition holds in every case; a condition over more values than can be enumerated is not decided"""
    try:
        return st.decide(c)
    except Fork:
        ss = [s for s in syms_of(c) if universe(s) is not None]
        n = 1
        for s in ss:
            n *= bin(st.dom[s]).count("1")
        if n > LIMIT:
            if len(ss) == len(syms_of(c)) and refuted(st, c, syms_of, universe):
                return False
            raise Unmodelled("a condition over too many values")
        return False


def utf8(cp, n):
    def bits(sh, m):
        return binop("and", binop("lshr", cp, sh, 32), m, 32)
    if n == 1:
        vs = [cp]
    elif n == 2:
        vs = [binop("or", bits(6, 0x1F), 0xC0, 32), binop("or", bits(0, 0x3F), 0x80, 32)]
    elif n == 3:
        vs = [binop("or", bits(12, 0x0F), 0xE0, 32), binop("or", bits(6, 0x3F), 0x80, 32), binop("or", bits(0, 0x3F), 0x80, 32)]
    else:
        vs = [binop("or", bits(18, 0x07), 0xF0, 32), binop("or", bits(12, 0x3F), 0x80, 32), binop("or", bits(6, 0x3F), 0x80, 32), binop("or", bits(0, 0x3F), 0x80, 32)]
    return [cast("trunc", v, 32, 8) for v in vs]


# ---- helpers shared by the drivers that read a sequence of unknown length

def focus(st, s):
    """rewrites the length of the sequence as (asked index + rest); returns the unknown 'rest'"""
    sid, idx = s.info
    o = st.mem[sid]
    for k in [k for k in o.x if type(k) is tuple and k[0] == "e" and k[1] != idx]:
        o = st.wobj(sid)
        del o.x[k]
    n = o.x["n"]
    if "#n" in st.ghost and st.ghost["#n"] in syms_of(n):
        nsym = st.ghost["#n"]
    else:
        nsym = [x for x in n[1]][0][0]
    rest = st.widesym("rest", 1, None)
    cur = lin_add(n, idx, 64, -1)
    target = lin_add(lin(rest), lin_add(lin(nsym), cur, 64, -1), 64)

    def f(v):
        if v[0] != "L":
            return v
        d = dict(v[1])
        c = d.pop(nsym, 0)
        if not c:
            return v
        return lin_add(mklin(d, v[2], 64), lin_scale(target, c, 64), 64)
    subst(st, f)
    idx = f(idx) if type(idx) is tuple else idx
    s.info = (sid, idx)
    st.ghost["elem"] = (("#obj", sid), idx)
    st.ghost["#n"] = rest
    return rest


def opaque(st, name, exact=False, notkeyword=False):
    """replaces the text the reference has produced so far, where the code holds it (as a whole, its
    beginning or a part), by unknowns: one for each part that the code distinguishes"""
    g = st.ghost[name]
    if not g[1] or exact:
        return

    def norm(atoms):
        return [("b", one_value(st, x[1])) if x[0] == "b" else x for x in atoms]
    ga = norm(s_atoms(g))
    cuts = {0, len(ga)}
    cells = []

    def same(x, y):
        return x == y or same_atom(st, x, y)
    for i, o in st.mem.items():
        if o.kind == "global" and o.x.get("const"):
            continue
        for k, c in o.cells.items():
            if type(c[0]) is tuple and c[0][0] == "S" and c[0][1]:
                a = norm(s_atoms(c[0]))
                n = 0
                while n < len(a) and n < len(ga) and same(a[n], ga[n]):
                    n += 1
                at = 0
                if n < len(a):
                    for p in range(len(ga) - len(a), 0, -1):
                        if all(same(x, y) for x, y in zip(a, ga[p:])):
                            at, n = p, len(a)
                            break
                if n and not at and n < len(a) == len(ga) and a[n][0] == ga[n][0] == "b" and "=bad" in st.ghost \
                        and not surely(st, icmp("eq", a[n][1], ga[n][1], 8)):
                    st.ghost["=bad"] = "%s instead of %s" % (show(a[n][1])[:200], show(ga[n][1])[:200])
                if n:
                    cells.append((i, k, a, n, at))
                    cuts |= {at, at + n}
    cuts = sorted(cuts)
    new = {}
    for s, e in zip(cuts, cuts[1:]):
        if all(x[0] == "b" and type(x[1]) is int for x in ga[s:e]) and e - s == 1:
            new[s] = ga[s:e]
            continue
        v = st.widesym("text", 1, None)
        if notkeyword and len(cuts) == 2:
            st.facts["nk", v] = True
        new[s] = [("v", v)]

    def seg(s, e):
        out = []
        for x in cuts:
            if s <= x < e:
                out += new[x]
        return out
    st.ghost[name] = ("S", s_flat(tuple(seg(0, len(ga)))))
    for i, k, a, n, at in cells:
        o = st.wobj(i)
        o.cells[k] = (("S", s_flat(tuple(seg(at, at + n)) + tuple(a[n:]))),) + tuple(o.cells[k][1:])


def one_value(st, v):
    """the constant, when a byte can have only one value"""
    if type(v) is tuple and v[0] == "T":
        m = st.dom[v[1]]
        vals_ = {x for i, x in enumerate(v[2]) if m >> i & 1}
        if len(vals_) == 1:
            return vals_.pop()
    return v


def forget_texts(st, limit=3):
    """replaces long texts of the code by unknowns, when they do not matter any more"""
    for i, o in list(st.mem.items()):
        if o.kind == "global" and o.x.get("const"):
            continue
        for k, c in list(o.cells.items()):
            if type(c[0]) is tuple and c[0][0] == "S" and len(s_atoms(c[0])) > limit:
                v = st.widesym("text", 1, None)
                st.wobj(i).cells[k] = (("S", (("v", v),)),) + tuple(c[1:])


def same_atom(st, a, b):
    if a[0] != "b" or b[0] != "b" or type(a[1]) is int or type(b[1]) is int:
        return False
    if not (syms_of(a[1]) & syms_of(b[1])):
        return False
    return surely(st, icmp("eq", a[1], b[1], 8))
