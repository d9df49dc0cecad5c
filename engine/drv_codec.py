"""The codec json<T>: reading, function by function, each against the contract that its callers rely on.

Every instantiation json<X>::read is interpreted on an unknown token sequence (the lexer is replaced by its contract,
see drv_jsonlex) with an unknown target object. Calls to another codec are replaced by the contract of that codec, which
is what this driver establishes for it in turn. The contract of json<X>::read: with null as current token it returns
'null', consumes nothing, and the target keeps its value or is cleared; otherwise it returns 'ok' after consuming
exactly the tokens of one value of its kind, whose meaning is then the value of the target; or it returns 'error' after
recording a code and the position of the first token that cannot continue such a value."""
from .explore import *
from .drv_jsonlex import surely
from .models import MODELS, getS, streq, cell_get, cell_set, TAILCALL, s_cat, esize_of, NOTBYTES
from . import models
from .witness import Schema

RM = []


def rmodel(*pats):
    def deco(f):
        for p in pats:
            RM.append((re.compile(p), f))
        return f
    return deco


IDS = ("NONE", "EOS", "OBJS", "OBJE", "COLON", "COMMA", "STRING", "ARRS", "ARRE", "NIL", "BTRUE", "BFALSE", "NUMBER")
OK, ERROR, NILR = 0, 1, 2
DEEP = 128          # values nested less deeply must be skipped
NUMBERS = {"int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "long long": 8, "unsigned long long": 8, "double": 8, "float": 4, "short": 2, "char": 1, "unsigned char": 1}


def norm(t):
    """type names of the debug information in the spelling of the demangler"""
    while "> >" in t:
        t = t.replace("> >", ">>")
    t = t.replace("std::__cxx11::", "std::")
    t = t.replace("std::basic_string<char, std::char_traits<char>, std::allocator<char>>", "std::string")
    return t


def split_targs(s):
    """template arguments of a type name"""
    i = s.index("<") + 1
    d, j, out, b = 0, i, [], i
    while j < len(s):
        c = s[j]
        if c in "<(":
            d += 1
        elif c in ">)":
            if d == 0:
                break
            d -= 1
        elif c == "," and d == 0:
            out.append(s[b:j].strip())
            b = j + 1
        j += 1
    return out + [s[b:j].strip()]


class Types:
    """layout of the types of a module"""

    def __init__(self, mod, ns):
        self.mod, self.ns = mod, ns
        self.t = {}
        self._leaves = {}
        for n, x in mod.types.items():
            self.t.setdefault(norm(n), x)

    def kind(self, X):
        if X == "bool":
            return "bool"
        if X in NUMBERS:
            return "number"
        if X == "std::string":
            return "string"
        if X == self.ns + "::string_field":
            return "string_field"
        if X.startswith(self.ns + "::field<"):
            return "field"
        if X.startswith("std::vector<unsigned char"):
            return "bytes"
        if X.startswith("std::vector<") or X.startswith("std::list<"):
            return "container"
        if X in self.t and X.endswith("_type"):
            return "message"
        if X in self.t:
            return "entity"
        return None

    def size(self, X):
        k = self.kind(X)
        if k == "bool":
            return 1
        if k == "number":
            return NUMBERS[X]
        if k == "string":
            return 32
        if k in ("bytes", "container"):
            return 24
        return self.t[X]["size"]

    def leaves(self, X, off=0, path=""):
        """[(offset, kind, size, type, path)] of the scalar parts of an object"""
        if off == 0 and not path:
            r = self._leaves.get(X)
            if r is None:
                r = self._leaves[X] = self.leaves1(X)
            return r
        return self.leaves1(X, off, path)

    def leaves1(self, X, off=0, path=""):
        k = self.kind(X)
        if k == "bool":
            return [(off, "b", 1, X, path)]
        if k == "number":
            return [(off, "f" if X in ("double", "float") else "i", NUMBERS[X], X, path)]
        if k == "string":
            return [(off, "S", 32, X, path)]
        if k == "bytes":
            return [(off, "S", 24, X, path)]
        if k == "container":
            return [(off, "V", 24, X, path)]
        t = self.t.get(X)
        if t is None:
            raise Anchor("type " + X)
        out = []
        for b, o in t["bases"]:
            out += self.leaves(norm(b), off + o, path)
        for n, o, ty, size in t["members"]:
            if n.startswith("_vptr"):
                continue
            ty = norm(ty)
            if self.kind(ty) is None:
                enum = self.t.get(ty, {})
                if "enum" in enum or ty in ("code",):
                    out.append((off + o, "i", size, ty, path + "." + n))
                    continue
                raise Unmodelled("member %s of type %s" % (n, ty))
            out += self.leaves(ty, off + o, path + "." + n)
        return sorted(out)

    def members(self, X):
        """{member name: (offset, type)} with the bases"""
        t = self.t[X]
        out = {}
        for b, o in t["bases"]:
            if norm(b) in self.t:
                for n, (off, ty) in self.members(norm(b)).items():
                    out[n] = (o + off, ty)
        for n, o, ty, size in t["members"]:
            out[n] = (o, norm(ty))
        return out

    def elem_size(self, X):
        e = split_targs(X)[0]
        return 1 if e == "bool" else self.size(e)


# ---- the environment of the analysed function
@rmodel(r"^protogen_\w+::internal::tokenizer::next\(\)$", r"^protogen_\w+::tokenizer::next\(\)$")
def _(m, st, fn, a, ins):
    if st.ghost["=go"] != "token":
        raise Suspend("token", a[0])
    st.ghost["=go"] = 0
    return m.padd(a[0], m.env.off_current)


@rmodel(r"^protogen_\w+::internal::tokenizer::ignore\(\)$")
def _(m, st, fn, a, ins):
    if not st.ghost["=go"]:
        raise Suspend("ignore", a[0])
    go, st.ghost["=go"] = st.ghost["=go"], 0
    return {"ok": OK, "error": ERROR}[go]


CALL = re.compile(r"^protogen_\w+::json<(.*), void>::(read)\(protogen_\w+::json_context&, (.*)&\)$")


@rmodel(CALL.pattern)
def _(m, st, fn, a, ins):
    X, _, Y = CALL.match(fn.dem).groups()
    if not st.ghost["=go"]:
        raise Suspend("call", (X, Y, tuple(a)))
    go, st.ghost["=go"] = st.ghost["=go"], 0
    return m.env.perform(st, X, Y, a, go)


STN = re.compile(r"^(?:bool )?protogen_\w+::string_to_number<([^,>]*)(?:, \w+)*>\(")


@rmodel(STN.pattern)
def _(m, st, fn, a, ins):
    """contract: converts the text of the current number, or refuses it because of its range"""
    if not st.ghost["=go"]:
        raise Suspend("convert", (a[0], STN.match(fn.dem).group(1)))
    go, st.ghost["=go"] = st.ghost["=go"], 0
    if go == "conv-ok":
        m.store(st, a[1], st.ghost["conv"], NUMBERS[STN.match(fn.dem).group(1)])
        return 1
    return 0


@rmodel(r"^(?:std::string )?protogen_\w+::reveal\(std::string const&\)$")
def _(m, st, fn, a, ins):
    """computed when the text is known; otherwise another unknown text (the mapping is injective, see C09)"""
    v = getS(m, st, a[1])
    if all(p[0] == "k" for p in v[1]):
        m.call_function(st, fn, a, ins)
        return TAILCALL
    s = st.widesym("revealed", 0, None)
    st.facts["nk", s] = True
    cell_set(m, st, a[0], ("S", (("v", s),)), 32)
    return None


UM = r"^std::unordered_map<std::string, int, .*>::"


@rmodel(UM + r"unordered_map\(std::initializer_list<std::pair<std::string const, int>>, ")
def _(m, st, fn, a, ins):
    n = a[2]
    if type(n) is not int:
        raise Unmodelled("initializer list of unknown size")
    ents = []
    for k in range(n):
        p = m.padd(a[1], 40 * k)
        ents.append((getS(m, st, p), m.load(st, m.padd(p, 32), "i32")))
    i = st.alloc("map", "index of names", x={"ents": tuple(ents)})
    cell_set(m, st, a[0], ("V", i), 56)


@rmodel(UM + r"~unordered_map\(\)$")
def _(m, st, fn, a, ins):
    return None


@rmodel(UM + r"find\(std::string const&\)( const)?$", UM + r"(count|at|contains)\(std::string const&\)( const)?$")
def _(m, st, fn, a, ins):
    c = cell_get(m, st, a[0])
    if c is None or c[0][0] != "V":
        raise Unmodelled("map of unknown content")
    key = getS(m, st, a[1])
    hit = None
    for name, v in st.mem[c[0][1]].x["ents"]:
        if st.decide(streq(m, st, key, name)):
            hit = (name, v)
            break
    if "::find(" in fn.dem:
        if hit is None:
            return 0
        return ("P", st.alloc("heap", "entry", 40, {0: (hit[0], 32), 32: (hit[1], 4)}), 0)
    if "::at(" in fn.dem:
        if hit is None:
            raise Throw("_ZTISt12out_of_range")
        return ("P", st.alloc("heap", "entry", 40, {0: (hit[0], 32), 32: (hit[1], 4)}), 32)
    return int(hit is not None)


@rmodel(UM + r"c?end\(\)( const)?$")
def _(m, st, fn, a, ins):
    return 0


@rmodel(r"^std::__detail::_Node_(const_)?iterator<std::pair<std::string const, int>.*>::operator(->|\*)\(\) const$")
def _(m, st, fn, a, ins):
    p = m.load(st, a[0], "ptr")
    if p == 0:
        raise Violation("the end of the map is dereferenced")
    return p


# elements appended to the container that is read
@rmodel(r"^std::(vector|list)<" + NOTBYTES + r".*>::push_back\(.*\)$", r"^(?:void )?std::(vector|list)<" + NOTBYTES + r".*>::emplace_back<[^()]+>\([^()]+\)$")
def _(m, st, fn, a, ins):
    d = m.env
    e = models.container_elem(fn.dem)
    v = models.getV(m, st, a[0], fn)
    o = st.wobj(v)
    n = o.x["n"]
    if e == "bool" and type(a[1]) is tuple and a[1][0] == "P":
        cells = {0: (m.load(st, a[1], "i8"), 1)}
    elif e == "bool":
        cells = {0: (cast("zext", a[1], 1, 8) if type(a[1]) is tuple and width(a[1]) == 1 else a[1], 1)}
    else:
        cells = {off: (d.leaf(st, m.padd(a[1], off), k, size), size) for off, k, size, _, _ in d.types.leaves(e)}
    o = st.wobj(v)
    o.x["e", n] = cells
    o.x["n"] = lin_add(n, 1, 64)


@rmodel(r"^(?:void )?std::(vector|list)<" + NOTBYTES + r".*>::emplace_back<>\(\)$")
def _(m, st, fn, a, ins):
    d = m.env
    e = models.container_elem(fn.dem)
    v = models.getV(m, st, a[0], fn)
    o = st.wobj(v)
    n = o.x["n"]
    o.x["e", n] = {off: (val, size) for off, val, size in d.default(e)}
    o.x["n"] = lin_add(n, 1, 64)
    return ("P", v, lin_scale(n, o.x["esize"], 64))


class Codec(Driver):
    """what the drivers of the codec share"""
    K = 1
    KEYS = True
    moving = ()

    def __init__(self, mod, ns, ms):
        Driver.__init__(self, mod, ms + MODELS)
        self.ns = ns
        self.types = Types(mod, ns)
        self.count = {}
        self.callees = set()
        self._default = {}
        models.KEYWORDS.clear()

    def tick(self, k):
        self.count[k] = self.count.get(k, 0) + 1

    def fail(self, st, what, rule):
        raise Violation(what, rule=rule, where=(self.entry.where(), self.entry.dem))

    def find1(self, rx):
        c = self.mod.find(rx)
        c = [f for f in c if "C1E" in f.name] or c
        if len(c) != 1:
            raise Anchor("%s (%d found)" % (rx, len(c)))
        return c[0]

    # ---- values
    def fresh_leaf(self, st, k, size, X=""):
        if k == "b":
            return ("T", st.finsym("flag", 2), (0, 1), 8)
        if k in "if":
            return lin(st.widesym("value", None, None), 8 * size)
        if k == "S":
            return ("S", (("v", st.widesym("text", 0, None)),))
        return ("V", st.alloc("seq", "container", x={"esize": self.types.elem_size(X), "n": lin(st.widesym("size", 0, None))}))

    def leaf(self, st, p, k, size):
        if k == "S":
            return getS(self.m, st, p)
        if k == "V":
            c = cell_get(self.m, st, p)
            if c is None or type(c[0]) is not tuple or c[0][0] != "V":
                raise Unmodelled("container of unknown content")
            return c[0]
        t = {1: "i8", 2: "i16", 4: "i32", 8: "i64"}[size]
        if k == "f":
            t = "double" if size == 8 else "float"
        return self.m.load(st, p, t)

    def snapshot(self, st, X, p):
        """[(offset, value, size)] of an object in memory"""
        return tuple((off, self.leaf(st, self.m.padd(p, off), k, size), size) for off, k, size, _, _ in self.types.leaves(X))

    def fill(self, st, X, p, snap=None):
        """gives an object in memory a new unknown value (or the one given); returns its snapshot"""
        out = []
        for n, (off, k, size, T, _) in enumerate(self.types.leaves(X)):
            v = self.fresh_leaf(st, k, size, T) if snap is None else snap[n][1]
            q = self.m.padd(p, off)
            if k in "SV":
                cell_set(self.m, st, q, v, size)
            else:
                self.m.store(st, q, v, size)
            out.append((off, v, size))
        return tuple(out)

    def default(self, X):
        """snapshot of a default object: what its constructor leaves"""
        r = self._default.get(X)
        if r is not None:
            return r
        k = self.types.kind(X)
        if k in ("message", "entity") and not self.types.leaves(X):
            r = ()
        elif k in ("bool", "number"):
            r = ((0, 0, self.types.size(X)),)
        elif k in ("string", "bytes"):
            r = ((0, ("S", ()), self.types.size(X)),)
        elif k == "container":
            r = ((0, ("V", 0), 24),)
        else:
            last = X.split("::")[-1].split("<")[0]
            c = self.mod.find("^" + re.escape(X) + "::" + re.escape(last) + r"\(\)$")
            st = State()
            i = st.alloc("heap", "object", self.types.size(X))
            saved = self.m.env
            out = []
            if c:
                f = ([f for f in c if "C1E" in f.name] or c)[0]
                self.m.call_function(st, f, [("P", i, 0)])
                res = list(self.m.run(st))
                if len(res) != 1 or res[0].kind != "return":
                    raise Unmodelled("default constructor of " + X)
                st = res[0].st
                for off, kk, size, T, _ in self.types.leaves(X):
                    v = self.leaf(st, ("P", i, off), kk, size)
                    if kk == "V":
                        if st.mem[v[1]].x["n"] != 0:
                            raise Unmodelled("default container with elements")
                        v = ("V", 0)
                    out.append((off, v, size))
            else:
                raise Unmodelled("no default constructor of " + X)
            r = tuple(out)
        self._default[X] = r
        return r

    def zero(self, v):
        return v == 0 or v == ("D", 0)

    def same_value(self, st, a, b):
        if a == b:
            return True
        if self.zero(a) and self.zero(b):
            return True
        ta, tb = type(a) is tuple and a[0], type(b) is tuple and b[0]
        if ta == "S" and tb == "S":
            return self.same_text(st, a, b)
        if ta == "V" and tb == "V":
            if 0 in (a[1], b[1]):
                x = b if a[1] == 0 else a
                return x[1] == 0 or st.mem[x[1]].x["n"] == 0 or surely(st, icmp("eq", st.mem[x[1]].x["n"], 0, 64))
            x, y = st.mem[a[1]], st.mem[b[1]]
            if x.x.get("copyof", a[1]) == y.x.get("copyof", b[1]) and x.x["n"] == y.x["n"] and not any(type(k) is tuple for k in list(x.x) + list(y.x)):
                return True
            return False
        if ta in ("S", "V", "D", "P") or tb in ("S", "V", "D", "P"):
            return False
        w = max(width(a) if ta else 8, width(b) if tb else 8)

        def z(v):
            return cast("zext", v, width(v), w) if type(v) is tuple and width(v) < w else v
        if ta == "L" and tb == "L":
            return difference(a, b) == 0
        return surely(st, icmp("eq", z(a), z(b), w))

    def same_text(self, st, a, b):
        r = streq(self.m, st, a, b)
        return (type(r) is int and r == 1) or surely(st, r)

    def same_snap(self, st, a, b):
        return len(a) == len(b) and all(x[0] == y[0] and self.same_value(st, x[1], y[1]) for x, y in zip(a, b))


class Read(Codec):
    """json<X>::read, deserialize and tokenizer::ignore"""

    def __init__(self, mod, ns, entry, X=None, schema=None, mode="read"):
        Codec.__init__(self, mod, ns, RM)
        self.entry, self.X, self.mode = entry, X, mode
        self.Y = None
        if mode == "read":
            mm = CALL.match(entry.dem)
            if not mm:
                raise Anchor("signature of " + entry.dem)
            self.Y = mm.group(3)
        self.name = entry.dem
        T = self.types.t
        I = ns
        self.TK = [t for t in (I + "::internal::tokenizer", I + "::tokenizer") if t in T]
        self.TT = [t for t in (I + "::internal::token", I + "::token") if t in T]
        self.EN = [t for t in (I + "::internal::token_id", I + "::token_id") if t in T]
        if not (self.TK and self.TT and self.EN):
            raise Anchor("tokenizer types")
        self.TK, self.TT, self.EN = self.TK[0], self.TT[0], self.EN[0]
        self.ids = T[self.EN]["enum"]
        for k in IDS:
            if k not in self.ids:
                raise Anchor("token_id::" + k)
        tk = {n: (o, t) for n, o, t, _ in T[self.TK]["members"]}
        for n in ("current_", "input_", "error_"):
            if n not in tk:
                raise Anchor("tokenizer::" + n)
        self.off_current, self.off_error, self.off_input = tk["current_"][0], tk["error_"][0], tk["input_"][0]
        self.depths = [(o, s) for n, o, t, s in T[self.TK]["members"] if n not in tk or t in ("int", "unsigned int", "long", "unsigned long", "short")]
        self.tm = {n: o for n, o, _, _ in T[self.TT]["members"]}
        for n in ("id", "value", "line", "column"):
            if n not in self.tm:
                raise Anchor("token::" + n)
        self.ctx = {n: (o, t) for n, o, t, _ in T[I + "::json_context"]["members"]}
        self.par = {n: (o, t) for n, o, t, _ in T[I + "::Parameters"]["members"]}
        self.ei = {n: (o, norm(t)) for n, o, t, _ in T[I + "::ErrorInfo"]["members"]}
        for d, ns_ in ((self.ctx, ("tok", "os", "params")), (self.par, ("error", "ensure_ascii", "serialize_null")), (self.ei, ("code", "message", "line", "column"))):
            for n in ns_:
                if n not in d:
                    raise Anchor("member " + n)
        if mode == "ignore":
            self.m.recursion = self.nested
        self.fields = []        # (json name, offset, type)
        self.other = {}
        self.schema = schema
        if X is not None:
            self.kind = self.types.kind(X)
            if self.kind == "message":
                self.describe_message()
        keys = {n for n, _, _ in self.fields}
        models.KEYWORDS.update(keys | {obfuscated(k) for k in keys})

    def fail(self, st, what, rule):
        Codec.fail(self, st, what, "ignore" if self.mode == "ignore" else rule)

    def describe_message(self):
        s, X = self.schema, self.X
        name = X[len(s.ns):-len("_type")]
        if not X.startswith(s.ns) or name not in s.messages:
            raise Anchor("message %s in the schema" % X)
        mem = self.types.members(X)
        for f in s.messages[name]:
            if f.name not in mem:
                raise Anchor("member %s of %s" % (f.name, X))
            off, ty = mem[f.name]
            if not f.transient:
                self.fields.append((s.jsonname(f), off, ty))

    # ---- reference grammar over tokens
    def accepts(self, st):
        """sets of kinds of tokens that the current node accepts, each with the next node"""
        n = st.ghost["=node"]
        k = n[0]
        if k == "value":        # a whole value, read by the function itself
            kd = self.kind if self.mode == "read" else "ignore"
            if kd == "bool":
                return [(("BTRUE", "BFALSE"), ("done",))]
            if kd == "number":
                return [(("NUMBER",), ("done",))]
            if kd in ("string", "bytes"):
                return [(("STRING",), ("done",))]
            if kd == "message":
                return [(("OBJS",), ("first",))]
            if kd == "container":
                return [(("ARRS",), ("afirst",))]
            if kd == "ignore":
                return [(("STRING", "NUMBER", "NIL", "BTRUE", "BFALSE"), ("done",)), (("OBJS",), ("first",)), (("ARRS",), ("afirst",))]
            return []
        if k == "first":
            return [(("OBJE",), ("done",)), (("STRING",), ("colon",))]
        if k == "key":
            return [(("STRING",), ("colon",))]
        if k == "colon":
            return [(("COLON",), ("fval",))]
        if k == "fval":
            return [(("NIL",), ("sep",))]
        if k == "sep":
            return [(("COMMA",), ("key",)), (("OBJE",), ("done",))]
        if k == "afirst":
            return [(("ARRE",), ("done",))] + [(("NIL",), ("asep",))]
        if k == "aval":
            return [(("NIL",), ("asep",))]
        if k == "asep":
            return [(("COMMA",), ("aval",)), (("ARRE",), ("done",))]
        return []

    def nested(self, m, st, fn, a, ins):
        """skipping a value inside the one that is skipped: by induction over the depth"""
        if not st.ghost["=go"]:
            raise Suspend("ignore", a[0])
        go, st.ghost["=go"] = st.ghost["=go"], 0
        if fn is not self.entry and not re.search(r"::ignore_?value\(\)$|::ignore\(\)$", fn.dem):
            raise Unmodelled("recursion of " + fn.dem)
        return {"ok": OK, "error": ERROR}[go]

    # ---- token in memory
    def token_at(self, st, what):
        return ("P", st.ghost["objs"][1][1], self.off_current + self.tm[what])

    def token_value(self, st):
        return getS(self.m, st, self.token_at(st, "value"))

    def token_id(self, st):
        return self.m.load(st, self.token_at(st, "id"), "i32")

    def token_pos(self, st):
        return tuple(self.m.load(st, self.token_at(st, x), "i32") for x in ("line", "column"))

    def kinds(self, st):
        """kinds that the current token may have"""
        v = self.token_id(st)
        if type(v) is int:
            return {k for k in IDS if self.ids[k] == v}
        if v[0] != "T":
            raise Unmodelled("kind of the current token")
        m = st.dom[v[1]]
        vals_ = {v[2][i] for i in range(len(v[2])) if m >> i & 1}
        return {k for k in IDS if self.ids[k] in vals_}

    def decide_kind(self, st, sets):
        """the set (of several disjoint ones) of the current token; splits the state when needed"""
        ks = self.kinds(st)
        hit = [s for s in sets if ks & set(s)]
        rest = ks - {k for s in sets for k in s}
        if len(hit) + bool(rest) > 1:
            v = self.token_id(st)
            masks = []
            for s in list(hit) + ([tuple(rest)] if rest else []):
                mk_ = 0
                for i in range(len(v[2])):
                    if v[2][i] in {self.ids[k] for k in s}:
                        mk_ |= 1 << i
                masks.append(mk_)
            raise ForkSym(v[1], masks)
        return hit[0] if hit else None

    def new_token(self, st):
        """states with the token that follows; the texts of keys are told apart"""
        node = st.ghost["=node"]
        out = []
        alts = [(IDS, None)]
        if node[0] in ("first", "key") and self.fields:
            alts = [(tuple(k for k in IDS if k != "STRING"), None)] + [(("STRING",), n) for n, _, _ in self.fields] + [(("STRING",), -1)]
        for ks, name in alts:
            s2 = st.copy()
            mask_ = 0
            for k in ks:
                mask_ |= 1 << IDS.index(k)
            sym = s2.finsym("kind", len(IDS), mask_)
            s2.ghost["=go"] = "token"
            self.set_token(s2, ("T", sym, tuple(self.ids[k] for k in IDS), 32), name)
            s2.note("in", (name.decode("latin1") if type(name) is bytes else "other key") if name is not None else ("token" if len(ks) > 1 else ks[0]))
            out.append(s2)
        return out

    def set_token(self, st, idv, name=None):
        if type(name) is bytes:
            v = ("S", (("k", name),)) if name else ("S", ())
        else:
            sy = st.widesym("text", 0, None)
            if name == -1:
                st.facts["nk", sy] = True
            v = ("S", (("v", sy),))
        m = self.m
        m.store(st, self.token_at(st, "id"), idv, 4)
        cell_set(m, st, self.token_at(st, "value"), v, 32)
        for x in ("line", "column"):
            m.store(st, self.token_at(st, x), lin(st.widesym(x, 0, None), 32), 4)
        st.ghost["conv"] = 0
        st.ghost["text"] = v

    # ---- start
    def make_ctx(self, st):
        m = self.m
        T = self.types.t
        ctx = st.alloc("heap", "context", T[self.ns + "::json_context"]["size"])
        tok = st.alloc("heap", "tokenizer", T[self.TK]["size"])
        po = self.ctx["params"][0]
        m.store(st, ("P", ctx, self.ctx["tok"][0]), ("P", tok, 0), 8)
        m.store(st, ("P", ctx, self.ctx["os"][0]), 0, 8)
        self.fill_params(st, ("P", ctx, po))
        eo = po + self.par["error"][0]
        inp = st.alloc("heap", "input", 8)
        m.store(st, ("P", tok, self.off_input), ("P", inp, 0), 8)
        m.store(st, ("P", tok, self.off_error), ("P", ctx, eo), 8)
        return ctx, tok, eo

    def fill_params(self, st, p, err=None):
        m = self.m
        for n in ("ensure_ascii", "serialize_null"):
            m.store(st, m.padd(p, self.par[n][0]), ("T", st.finsym(n, 2), (0, 1), 8), 1)
        e = m.padd(p, self.par["error"][0])
        if err is None:
            m.store(st, m.padd(e, self.ei["code"][0]), 0, 4)
            cell_set(m, st, m.padd(e, self.ei["message"][0]), ("S", ()), 32)
            for n in ("line", "column"):
                m.store(st, m.padd(e, self.ei[n][0]), 0, 4)

    def error_of(self, st, p=None):
        """(code, message, line, column) of the error record"""
        if p is None:
            p = ("P", st.ghost["objs"][0][1], self.eoff)
        m = self.m
        return (m.load(st, m.padd(p, self.ei["code"][0]), "i32"), getS(m, st, m.padd(p, self.ei["message"][0])),
                m.load(st, m.padd(p, self.ei["line"][0]), "i32"), m.load(st, m.padd(p, self.ei["column"][0]), "i32"))

    def start(self):
        st = State()
        m = self.m
        g = st.ghost
        ctx, tok, self.eoff = self.make_ctx(st)
        obj = 0
        g["objs"] = (("#obj", ctx), ("#obj", tok))
        g["=node"], g["=go"], g["conv"], g["text"] = ("value",), 0, 0, 0
        g["=err"], g["err"], g["bad"], g["=bounded"] = 0, 0, 0, ()
        g["key"], g["depth"], g["first"], g["rec"] = 0, (), 0, 0
        g["cnt"], g["=push"], g["elem"], g["=free"] = 0, 0, (), 0
        for o, size in self.depths:
            if size == 4 and o != self.off_current:
                v = lin(st.widesym("depth", 0, None), 32)
                m.store(st, ("P", tok, o), v, 4)
                g["depth"] = g["depth"] + ((o, v),)
        sym = st.finsym("kind", len(IDS))
        self.set_token(st, ("T", sym, tuple(self.ids[k] for k in IDS), 32))
        g["first"] = self.token_pos(st)
        args = [("P", ctx, 0)]
        if self.mode == "read":
            obj = st.alloc("heap", "object", self.types.size(self.Y))
            g["objs"] += (("#obj", obj),)
            snap = self.fill(st, self.Y, ("P", obj, 0))
            g["obj"] = snap
            if self.kind == "container":
                g["cnt"] = st.mem[snap[0][1][1]].x["n"]
            args.append(("P", obj, 0))
        else:
            g["obj"] = ()
            args = [("P", tok, 0)]
        m.call_function(st, self.entry, args)
        return st

    # ---- consumption
    def consume(self, st):
        """the function takes the current token"""
        g = st.ghost
        if g["=err"] or g["=node"][0] == "bad":
            return
        acc = self.accepts(st)
        s = self.decide_kind(st, [a for a, _ in acc])
        if s is None:
            self.tick("rejections")
            g["bad"] = self.token_pos(st)
            g["=node"] = ("bad",)
            return
        self.tick("tokens")
        node = g["=node"]
        nxt = dict(acc)[s]
        if nxt == ("colon",):
            g["key"] = self.token_value(st)
        if node[0] == "fval" and s == ("NIL",):
            k = self.keyed(st)
            if k is not None:
                g["=free"] = k[0]
        if node[0] in ("afirst", "aval") and s == ("NIL",):
            g["elem"] = self.default(split_targs(self.X)[0]) if self.mode == "read" else ()
            g["=push"] = 1 if self.mode == "read" else 0
        if node[0] == "value" and self.mode == "read":
            kd = self.kind
            if kd == "bool":
                g["elem"] = ((0, int(surely(st, icmp("eq", self.token_id(st), self.ids["BTRUE"], 32))), 1),)
                if len(self.kinds(st)) > 1:
                    v = self.token_id(st)
                    raise ForkSym(v[1], [1 << IDS.index("BTRUE"), 1 << IDS.index("BFALSE")])
            elif kd == "number":
                if g["conv"] in (0, -1):
                    self.fail(st, "a number is taken without having been converted", "value")
                g["elem"] = ((0, g["conv"], self.types.size(self.X)),)
            elif kd == "string":
                g["elem"] = ((0, self.token_value(st), 32),)
        g["=node"] = nxt

    def keyed(self, st):
        """the field that the key names: (name, offset, type) or None"""
        key = st.ghost["key"]
        for f in self.fields:
            if self.same_text(st, key, ("S", (("k", f[0]),))):
                return f
        return None

    # ---- suspension
    def abstract(self, st, s):
        g = st.ghost
        # the depth at the beginning is below a bound: remembered, since bounds do not survive joins
        g["=bounded"] = tuple(o for o, v in g["depth"] if o in g["=bounded"] or surely(st, icmp("slt", v, 4096, 32)))
        self.settle_object(st, s)
        if s.kind == "token":
            self.consume(st)
            self.forget_token(st)
        elif s.kind == "ignore":
            self.check_ignore(st)
        elif s.kind == "call":
            self.check_call(st, s)
        elif s.kind == "convert":
            if not self.same_text(st, getS(self.m, st, s.info[0]), self.token_value(st)):
                self.fail(st, "the text that is converted is not that of the current token", "value")
            return []
        elif s.kind == "elem":
            raise Unmodelled("an element of a container is looked at")
        else:
            raise Unmodelled("unexpected request " + s.kind)
        self.forget_heap(st)
        return []

    def forget_token(self, st):
        o = st.wobj(st.ghost["objs"][1][1])
        for n in self.tm.values():
            o.cells.pop(self.off_current + n, None)
        st.ghost["text"] = 0
        st.ghost["conv"] = 0

    def forget_heap(self, st):
        """entries of the index of names"""
        for i, o in list(st.mem.items()):
            if o.kind == "seq" and any(type(k) is tuple for k in o.x) and not (self.mode == "read" and self.kind == "container" and i == self.container(st)):
                o = st.wobj(i)
                for k in [k for k in o.x if type(k) is tuple]:
                    del o.x[k]

    def objp(self, st):
        return ("P", st.ghost["objs"][2][1], 0)

    def container(self, st):
        return self.leaf(st, self.objp(st), "V", 24)[1]

    def settle_object(self, st, s=None):
        """the target holds what the reference has read so far"""
        g = st.ghost
        if self.mode != "read" or g["=err"]:
            return
        if self.kind == "container":
            return self.settle_container(st, s)
        if self.kind not in ("message", "entity"):
            return
        cur = self.snapshot(st, self.Y, self.objp(st))
        if g["=free"]:
            f = [x for x in self.fields if x[0] == g["=free"]][0]
            size = self.types.size(f[2])
            part = tuple((o - f[1], v, z) for o, v, z in cur if f[1] <= o < f[1] + size)
            if self.same_snap(st, part, self.default(f[2])):
                new = {o + f[1]: v for o, v, _ in part}
                g["obj"] = tuple((o, new.get(o, v), z) for o, v, z in g["obj"])
        for (o, v, z), (o2, v2, _), lf in zip(cur, g["obj"], self.types.leaves(self.Y)):
            if not self.same_value(st, v, v2) or (lf[1] == "V" and v != v2):
                self.fail(st, "%s does not hold what was read for it" % lf[4].lstrip("."), "assign")
        if g["=free"] and (s is None or s.kind == "token"):
            g["=free"] = 0

    def settle_container(self, st, s):
        g = st.ghost
        c = self.container(st)
        o = st.mem[c]
        n, cnt = o.x["n"], g["cnt"]
        if c != g["obj"][0][1][1]:
            self.fail(st, "the elements that were there before are dropped", "assign")
        d = difference(n, cnt)
        if d is None:
            raise Unmodelled("size of the container")
        if d == 1 and not g["=push"]:
            if s is not None and s.kind == "call" and s.info[2][1][0] == "P" and s.info[2][1][1] == c:
                return      # the element is added before it is read
            self.fail(st, "an element is added that was not read", "array")
        if d == 0:
            return
        if d != 1:
            self.fail(st, "the container does not get one element for each value", "array")
        e = split_targs(self.X)[0]
        cells = o.x.get(("e", cnt))
        if cells is None:
            raise Unmodelled("element that was added")
        for off, v, size in g["elem"]:
            if off not in cells or not self.same_value(st, cells[off][0], v):
                self.fail(st, "the element that is added is not the value that was read", "array")
        o = st.wobj(c)
        for k in [k for k in o.x if type(k) is tuple]:
            del o.x[k]
        g["=push"], g["elem"], g["cnt"] = 0, (), lin_add(cnt, 1, 64)
        self.tick("elements")

    def check_ctx(self, st, p):
        if p != ("P", st.ghost["objs"][0][1], 0):
            self.fail(st, "a codec is called with another context", "context")

    def check_call(self, st, s):
        g = st.ghost
        g["=role"] = ""
        X, Y, a = s.info
        self.callees.add(X)
        self.check_ctx(st, a[0])
        if g["=err"] or g["=node"][0] == "bad":
            return
        node = g["=node"]
        kd = self.kind if self.mode == "read" else None
        g["=callee"] = X
        if node[0] == "value" and kd in ("field", "string_field", "entity"):
            g["=role"] = "whole"
            if kd == "entity" and a[1] != self.objp(st):
                self.fail(st, "another object is read", "assign")
            return
        if node[0] == "fval":
            f = self.keyed(st)
            if f is None:
                self.fail(st, "a member that the message does not have is stored", "assign")
            p = a[1]
            if p[0] != "P" or p[1] != g["objs"][2][1]:
                self.fail(st, "the value is read into another object", "assign")
            base = self.base_of(Y, f[2])
            if surely(st, icmp("eq", p[2] if type(p[2]) is int else p[2], f[1] + base, 64)) is False:
                self.fail(st, "the value of \"%s\" is stored in another member" % f[0].decode("latin1"), "assign")
            g["=role"] = f[0]
            return
        if node[0] in ("afirst", "aval") and kd == "container":
            if g["=push"]:
                self.fail(st, "a value that was read is not added to the container", "array")
            if node[0] == "afirst" and "ARRE" in self.kinds(st):
                # the end of the array comes first
                self.decide_kind(st, [("ARRE",)])
                self.fail(st, "the end of an array is read as a value", "grammar")
            e = split_targs(self.X)[0]
            if not self.same_snap(st, self.snapshot(st, Y, a[1]), self.default(Y)):
                if self.types.kind(X) not in ("field", "string_field", "number", "bool"):
                    self.fail(st, "an element is read over the value of another one", "array")
                g["=stale"] = 1
            else:
                g["=stale"] = 0
            g["=role"] = "elem"
            return
        self.fail(st, "a value is read where the grammar has none (%s)" % self.nodename(node), "grammar")

    def base_of(self, Y, T):
        """offset of the part of an object that a codec takes"""
        if Y == T:
            return 0
        if self.types.kind(T) == "entity":
            for b, o in self.types.t[T]["bases"]:
                if norm(b) == Y:
                    return o
        return 0

    def nodename(self, n):
        return {"value": "before the value", "first": "after '{'", "key": "after ','", "colon": "after a name", "sep": "after a member", "afirst": "after '['",
                "aval": "after ','", "asep": "after an element", "done": "after the value"}.get(n[0], n[0])

    def check_ignore(self, st):
        g = st.ghost
        if g["=err"] or g["=node"][0] == "bad":
            return
        node = g["=node"]
        if self.mode == "ignore":
            if node[0] == "afirst" and "ARRE" in self.kinds(st):
                self.decide_kind(st, [("ARRE",)])
                self.fail(st, "the end of an array is skipped as a value", "ignore")
            if node[0] not in ("fval", "afirst", "aval"):
                self.fail(st, "a value is skipped where the grammar has none (%s)" % self.nodename(node), "ignore")
            for o, v in g["depth"]:
                cur = self.m.load(st, ("P", g["objs"][1][1], o), "i32")
                if difference(cur, v) == 1 and o in g["=bounded"]:
                    self.tick("nested values")
                    return
            self.fail(st, "no bound for the depth of the values that are skipped", "ignore")
        if node[0] == "fval":
            f = self.keyed(st)
            if f is not None:
                if self.decide_kind(st, [("NIL",)]) is None:
                    self.fail(st, "the value of the member \"%s\" is skipped" % f[0].decode("latin1"), "assign")
                g["=free"] = f[0]
            return
        self.fail(st, "a value is skipped where the grammar has none (%s)" % self.nodename(node), "grammar")

    # ---- resume
    def resume(self, st, s):
        g = st.ghost
        if s.kind == "token":
            return self.new_token(st)
        out = []
        if s.kind == "convert":
            T = s.info[1]
            done = g["conv"]
            for go in ("conv-ok", "conv-fail"):
                s2 = st.copy()
                if done != 0 and (done == -1) != (go == "conv-fail"):
                    continue
                s2.ghost["=go"] = go
                if done == 0:
                    s2.ghost["conv"] = -1 if go == "conv-fail" else self.fresh_leaf(s2, "f" if T in ("double", "float") else "i", NUMBERS[T])
                s2.note("in", "in range" if go == "conv-ok" else "out of range")
                out.append(s2)
            return out
        if s.kind == "ignore":
            for go in ("ok", "error"):
                s2 = st.copy()
                if go == "error":
                    self.contract_error(s2)
                    s2.ghost["=go"] = go
                    out.append(s2)
                    continue
                if not s2.ghost["=err"] and s2.ghost["=node"][0] != "bad":
                    s2.ghost["=node"] = ("asep",) if s2.ghost["=node"][0] in ("afirst", "aval") else ("sep",)
                s2.note("in", "value")
                self.forget_token(s2)
                for s3 in self.new_token(s2):
                    s3.ghost["=go"] = go
                    out.append(s3)
            return out
        # a codec
        for go in ("nil", "ok", "error"):
            s2 = st.copy()
            v = self.token_id(s2)
            nil = None
            if type(v) is tuple:
                mk_ = 0
                for i in range(len(v[2])):
                    if v[2][i] == self.ids["NIL"]:
                        mk_ |= 1 << i
                s2.dom[v[1]] &= mk_ if go == "nil" else ~mk_
                if not s2.dom[v[1]]:
                    continue
            elif (v == self.ids["NIL"]) != (go == "nil"):
                continue
            if go == "nil":
                s2.ghost["=go"] = go
                s2.note("in", "null")
                out.append(s2)
                continue
            if go == "error":
                self.contract_error(s2)
                s2.ghost["=go"] = go
                out.append(s2)
                continue
            s2.note("in", "value")
            n = s2.ghost["=node"][0]
            if not s2.ghost["=err"] and n != "bad":
                s2.ghost["=node"] = {"value": ("done",), "fval": ("sep",), "afirst": ("asep",), "aval": ("asep",)}[n]
            self.forget_token(s2)
            for s3 in self.new_token(s2):
                s3.ghost["=go"] = go
                out.append(s3)
        return out

    def contract_error(self, st):
        """the callee has recorded an error"""
        m = self.m
        g = st.ghost
        st.note("in", "<error>")
        if not g["=err"]:
            e = ("P", g["objs"][0][1], self.eoff)
            m.store(st, m.padd(e, self.ei["code"][0]), lin(st.widesym("code", 1, None), 32), 4)
            cell_set(m, st, m.padd(e, self.ei["message"][0]), ("S", (("v", st.widesym("message", 0, None)),)), 32)
            for n in ("line", "column"):
                m.store(st, m.padd(e, self.ei[n][0]), lin(st.widesym(n, 0, None), 32), 4)
            g["err"] = self.error_of(st)
            g["=err"] = 1
        sym = st.finsym("kind", len(IDS))
        self.set_token(st, ("T", sym, tuple(self.ids[k] for k in IDS), 32))

    def perform(self, st, X, Y, a, go):
        """effects of the contract of a codec on its target"""
        g = st.ghost
        role = g["=role"]
        k = self.types.kind(X)
        dead = g["=err"] or g["=node"][0] == "bad"
        if dead:
            self.fill(st, Y, a[1])
        elif role == "elem":
            e = split_targs(self.X)[0]
            base = self.base_of(Y, e)
            if go == "nil":
                # a field becomes empty; anything else keeps the value it had, or becomes empty
                if g["=stale"] and k in ("field", "string_field"):
                    snap = self.fill(st, Y, a[1], self.concrete_default(st, Y))
                elif g["=stale"]:
                    self.fail(st, "null as element gives the value of another element", "array")
                else:
                    snap = self.snapshot(st, Y, a[1])
            else:
                snap = self.fill(st, Y, a[1])
            g["elem"], g["=push"] = tuple((o + base, v, z) for o, v, z in snap), 1
        elif role == "whole":
            if go != "nil" or not self.same_snap(st, self.snapshot(st, Y, a[1]), self.default(Y)):
                g["elem"] = self.fill(st, Y, a[1])
                if self.kind == "entity":
                    g["obj"] = g["elem"]
        else:
            self.write_field(st, Y, a)
        return {"nil": NILR, "ok": OK, "error": ERROR}[go]

    def concrete_default(self, st, X):
        out = []
        for (off, v, size), lf in zip(self.default(Y), self.types.leaves(X)):
            if v == ("V", 0):
                v = ("V", st.alloc("seq", "container", x={"esize": self.types.elem_size(lf[3]), "n": 0}))
            out.append((off, v, size))
        return out

    def write_field(self, st, Y, a):
        g = st.ghost
        snap = self.fill(st, Y, a[1])
        base = sgn(a[1][2], 64)
        new = {base + o: v for o, v, _ in snap}
        g["obj"] = tuple((o, new.get(o, v), z) for o, v, z in g["obj"])

    # ---- the end
    def on_return(self, st, val):
        g = st.ghost
        m = self.m
        self.settle_object(st)
        if type(val) is not int:
            if type(val) is tuple and val[0] == "T":
                vs = {x for i, x in enumerate(val[2]) if st.dom[val[1]] >> i & 1}
                if len(vs) > 1:
                    raise ForkSym(val[1], [sum(1 << i for i, x in enumerate(val[2]) if x == v) for v in vs])
                val = vs.pop()
            else:
                raise Unmodelled("status returned")
        err = self.error_of(st)
        for o, v in g["depth"]:
            if val == OK and not self.same_value(st, m.load(st, ("P", g["objs"][1][1], o), "i32"), v):
                self.fail(st, "the count of open values is not restored", "ignore")
        node = g["=node"]
        if val == OK:
            if not surely(st, icmp("eq", err[0], 0, 32)):
                self.fail(st, "success is reported after an error was recorded", "error")
            if g["=err"]:
                self.fail(st, "success is reported although a part failed", "error")
            if node[0] == "bad":
                self.fail(st, "a document that breaks the grammar is accepted", "grammar")
            if node[0] != "done":
                self.fail(st, "success is reported before the value has ended (%s)" % self.nodename(node), "grammar")
            if g["=push"]:
                self.fail(st, "a value that was read is not added to the container", "array")
            if self.mode == "read" and self.kind in ("bool", "number", "string", "bytes", "field", "string_field"):
                self.check_value(st)
            self.tick("acceptances")
            return ()
        if val == NILR:
            if self.mode != "read":
                self.fail(st, "'null' is not an outcome of skipping a value", "ignore")
            if node[0] != "value" or g["=err"]:
                self.fail(st, "'null' is reported after something was read", "null")
            if self.decide_kind(st, [("NIL",)]) is None:
                self.fail(st, "'null' is reported for another token", "null")
            if not surely(st, icmp("eq", err[0], 0, 32)):
                self.fail(st, "'null' is reported with an error", "error")
            cur = self.snapshot(st, self.Y, self.objp(st))
            dflt = self.default(self.Y)
            if self.kind in ("field", "string_field"):
                if not self.same_snap(st, cur, dflt):
                    self.fail(st, "null does not make the field empty", "null")
            elif not self.same_snap(st, cur, g["obj"]) and not self.same_snap(st, cur, dflt):
                self.fail(st, "null changes the value", "null")
            self.tick("nulls")
            return ()
        if val != ERROR:
            self.fail(st, "the status %s is returned" % val, "error")
        if surely(st, icmp("eq", err[0], 0, 32)):
            self.fail(st, "failure is reported without an error code", "error")
        if not surely(st, icmp("ne", err[0], 0, 32)):
            raise Unmodelled("error code")
        if g["=err"]:
            if any(not self.same_value(st, x, y) for x, y in zip(err, g["err"])):
                self.fail(st, "an error that was recorded is replaced", "error")
            self.tick("rejections")
            return ()
        pos = g["bad"] if node[0] == "bad" else None
        if pos is None:
            # the current token must be one that cannot continue
            self.refused(st)
            pos = self.token_pos(st)
        if not all(self.same_value(st, x, y) for x, y in zip(err[2:], pos)):
            self.fail(st, "the position of the error is not that of the first token that breaks the grammar", "error")
        if not err[1][1]:
            self.fail(st, "the error has no message", "error")
        self.tick("rejections")
        return ()

    def refused(self, st):
        """a direct refusal: fails when the reference accepts the current token"""
        g = st.ghost
        node = g["=node"]
        acc = [a for a, _ in self.accepts(st)]
        if node[0] == "value" and self.mode == "read":
            acc = acc + [("NIL",)] if self.kind not in ("field", "string_field", "entity") else acc
            if self.kind == "number" and g["conv"] == -1:
                acc = [a for a in acc if "NUMBER" not in a]
            if self.kind in ("field", "string_field", "entity"):
                self.fail(st, "a value is refused that its own codec was not asked about", "grammar")
        if node[0] in ("fval", "afirst", "aval"):
            acc = [tuple(IDS)]      # whatever it is, the codec of the member decides
        if node[0] == "done":
            acc = [tuple(IDS)]
            if self.mode == "ignore":   # a value that is skipped is never the last thing of the text
                acc = [tuple(k for k in IDS if k not in ("NONE", "EOS"))]
        if node[0] == "value" and self.mode == "ignore":
            deep = any(surely(st, icmp("sge", v, DEEP, 32)) for _, v in g["depth"])
            acc = [a for a in acc if not deep or a[0] not in ("OBJS", "ARRS")]
        s = self.decide_kind(st, acc)
        if s is not None:
            self.fail(st, "a token that the grammar allows is refused (%s, %s)" % (self.nodename(node), "/".join(sorted(self.kinds(st)))), "grammar")

    def check_value(self, st):
        g = st.ghost
        k = self.kind
        p = self.objp(st)
        if k in ("bool", "number", "string", "bytes"):
            cur = self.snapshot(st, self.X, p)
            if not self.same_snap(st, cur, g["elem"]):
                self.fail(st, "the target does not have the value that was read", "value")
            return
        # presence: the value and the mark that there is one
        d = self.default(self.X)
        for (off, v, size), lf, (_, dv, _) in zip(self.snapshot(st, self.X, p), self.types.leaves(self.X), d):
            if lf[4].startswith(".value"):
                if not self.same_value(st, v, g["elem"][0][1]):
                    self.fail(st, "the field does not have the value that was read", "value")
            elif type(dv) is int and not self.same_value(st, v, 1 - dv):
                self.fail(st, "a field that was read does not count as present", "presence")

    def on_throw(self, st, exc):
        raise Violation("an exception escapes (%s)" % (exc[0],), rule="exception")


def obfuscated(name):
    n = len(name) % 8
    mask = (0x93 << n | 0x93 >> (8 - n)) & 255
    return bytes(b ^ mask for b in name)


READ = re.compile(r"^protogen_\w+::json<(.*), void>::read\(")


def readers(mod, ns):
    """the read functions of a module: [(function, type)]"""
    out = []
    for f in mod.funcs.values():
        mm = READ.match(f.dem)
        if mm and not f.decl:
            out.append((f, mm.group(1)))
    return sorted(out, key=lambda x: x[0].dem)


# ---- whole documents
DOC = re.compile(r"^(?P<own>.*)::deserialize\((?P<ns>protogen_\w+)::(?:internal::)?istream&, protogen_\w+::Parameters\*\)$")
DOCA = re.compile(r"^bool (?P<ns>protogen_\w+)::deserialize_array<(?P<c>.*), 0>\((?P<c2>.*)&, protogen_\w+::(?:internal::)?istream&, protogen_\w+::Parameters\*\)$")


def documents(mod):
    """the functions that read a whole document: [(function, type of the target)]"""
    out = []
    for f in mod.funcs.values():
        if f.decl:
            continue
        mm = DOC.match(f.dem)
        if mm and "::message<" not in mm.group("own"):
            out.append((f, mm.group("own")))
        mm = DOCA.match(f.dem)
        if mm:
            out.append((f, mm.group("c2")))
    return sorted(out, key=lambda x: x[0].dem)


class Document(Read):
    """deserialize and deserialize_array: one tokenizer over the input, one value read by the codec of the type, and the
    outcome handed to the caller"""

    def __init__(self, mod, ns, entry, X):
        Read.__init__(self, mod, ns, entry, None, None, "doc")
        self.X = self.Y = X
        self.kind = self.types.kind(X)
        self.array = "deserialize_array<" in entry.dem

    def start(self):
        return [self.start1(0), self.start1(1)]

    def start1(self, given):
        st = State()
        m, g = self.m, st.ghost
        obj = st.alloc("heap", "object", self.types.size(self.X))
        inp = st.alloc("heap", "input", 8)
        par = st.alloc("heap", "params", self.types.t[self.ns + "::Parameters"]["size"])
        g["objs"] = (("#obj", obj), ("#obj", inp), ("#obj", par))
        g["tok"], g["ctx"] = 0, 0
        g["=node"], g["=go"], g["conv"], g["text"], g["=err"], g["err"], g["bad"], g["=bounded"] = ("start",), 0, 0, 0, 0, 0, 0, ()
        g["key"], g["depth"], g["first"], g["=given"] = 0, (), 0, given
        e = ("P", par, self.par["error"][0])
        for n in ("ensure_ascii", "serialize_null"):
            m.store(st, ("P", par, self.par[n][0]), ("T", st.finsym(n, 2), (0, 1), 8), 1)
        g["flags"] = tuple(m.load(st, ("P", par, self.par[n][0]), "i8") for n in ("ensure_ascii", "serialize_null"))
        m.store(st, m.padd(e, self.ei["code"][0]), lin(st.widesym("earlier code", 0, None), 32), 4)
        cell_set(m, st, m.padd(e, self.ei["message"][0]), ("S", (("v", st.widesym("earlier message", 0, None)),)), 32)
        for n in ("line", "column"):
            m.store(st, m.padd(e, self.ei[n][0]), lin(st.widesym(n, 0, None), 32), 4)
        g["obj"] = self.fill(st, self.X, ("P", obj, 0))
        p = ("P", par, 0) if given else 0
        m.call_function(st, self.entry, [("P", obj, 0), ("P", inp, 0), p])
        return st

    def token_at(self, st, what):
        p = st.ghost["tok"]
        if p == 0:
            raise Unmodelled("no tokenizer")
        return self.m.padd(p, self.off_current + self.tm[what])

    def forget_token(self, st):
        p = st.ghost["tok"]
        o = st.wobj(p[1])
        for n in self.tm.values():
            o.cells.pop(p[2] + self.off_current + n, None)

    def new_token(self, st):
        s2 = st.copy()
        sym = s2.finsym("kind", len(IDS))
        s2.ghost["=go"] = "token"
        self.set_token(s2, ("T", sym, tuple(self.ids[k] for k in IDS), 32))
        s2.note("in", "token")
        return [s2]

    def abstract(self, st, s):
        g = st.ghost
        if s.kind == "token":
            p = s.info
            if g["=node"] != ("start",):
                self.fail(st, "a token is taken apart from the value that is read", "document")
            if p[0] != "P":
                raise Unmodelled("tokenizer")
            g["tok"] = p
            if self.m.load(st, self.m.padd(p, self.off_input), "ptr") != ("P", g["objs"][1][1], 0):
                self.fail(st, "the tokenizer reads another input", "document")
            g["=node"] = ("value",)
            return []
        if s.kind != "call":
            self.fail(st, "the document is not read by the codec of its type", "document")
        X, Y, a = s.info
        if g["=node"] != ("value",):
            self.fail(st, "the document is read %s" % ("twice" if g["=node"] == ("done",) else "without a tokenizer"), "document")
        ctx = a[0]
        m = self.m
        if m.load(st, m.padd(ctx, self.ctx["tok"][0]), "ptr") != g["tok"]:
            self.fail(st, "the codec gets another tokenizer", "document")
        e = m.padd(ctx, self.ctx["params"][0] + self.par["error"][0])
        if m.load(st, m.padd(g["tok"], self.off_error), "ptr") != e:
            self.fail(st, "the tokenizer records errors elsewhere", "error")
        if not surely(st, icmp("eq", self.error_of(st, e)[0], 0, 32)):
            self.fail(st, "an error of an earlier call is kept", "error")
        p = a[1]
        if p[0] != "P" or p[1] != g["objs"][0][1]:
            self.fail(st, "the document is read into another object", "document")
        if p[2] != self.base_of(Y, self.X):
            self.fail(st, "the document is read into a part of the object", "document")
        if X not in (self.X, Y):
            self.fail(st, "the document is read by the codec of another type", "document")
        g["ctx"] = ctx
        self.callees.add(X)
        self.tick("documents")
        return []

    def resume(self, st, s):
        g = st.ghost
        if s.kind == "token":
            return self.new_token(st)
        out = []
        for go in ("nil", "ok", "error"):
            s2 = st.copy()
            g2 = s2.ghost
            v = self.token_id(s2)
            mk_ = 1 << IDS.index("NIL")
            s2.dom[v[1]] &= mk_ if go == "nil" else ~mk_
            g2["=go"] = go
            g2["first"] = self.token_pos(s2)
            s2.note("in", {"nil": "null", "ok": "value", "error": "malformed value"}[go])
            e = self.m.padd(g2["ctx"], self.ctx["params"][0] + self.par["error"][0])
            if go == "error":
                m = self.m
                m.store(s2, m.padd(e, self.ei["code"][0]), lin(s2.widesym("code", 1, None), 32), 4)
                cell_set(m, s2, m.padd(e, self.ei["message"][0]), ("S", (("v", s2.widesym("message", 0, None)),)), 32)
                for n in ("line", "column"):
                    m.store(s2, m.padd(e, self.ei[n][0]), lin(s2.widesym(n, 0, None), 32), 4)
            if go != "nil":
                self.set_token(s2, ("T", s2.finsym("kind", len(IDS)), tuple(self.ids[k] for k in IDS), 32))
            g2["err"] = self.error_of(s2, e)
            g2["=node"] = ("done",)
            g2["=role"] = go
            out.append(s2)
        return out

    def perform(self, st, X, Y, a, go):
        g = st.ghost
        if go != "nil":
            self.fill(st, Y, a[1])
        g["obj"] = self.snapshot(st, self.X, ("P", g["objs"][0][1], 0))
        return {"nil": NILR, "ok": OK, "error": ERROR}[go]

    def on_return(self, st, val):
        g = st.ghost
        m = self.m
        if type(val) is tuple and width(val) == 1:
            val = int(st.decide(val))
        val = val & 1 if type(val) is int else val
        if type(val) is not int:
            raise Unmodelled("result")
        if g["=node"] != ("done",):
            self.fail(st, "the call ends without having read a value", "document")
        go = g["=role"]
        if (go == "ok") != (val == 1):
            self.fail(st, {"ok": "failure is reported for a value that was read", "nil": "null is reported as success", "error": "success is reported after an error"}[go], "document")
        if not self.same_snap(st, self.snapshot(st, self.X, ("P", g["objs"][0][1], 0)), g["obj"]):
            self.fail(st, "the object is changed after it was read", "document")
        if g["=given"]:
            par = g["objs"][2][1]
            for n, v in zip(("ensure_ascii", "serialize_null"), g["flags"]):
                if not self.same_value(st, m.load(st, ("P", par, self.par[n][0]), "i8"), v):
                    self.fail(st, "the parameters of the caller are changed", "error")
            err = self.error_of(st, ("P", par, self.par["error"][0]))
            if go == "ok":
                if not surely(st, icmp("eq", err[0], 0, 32)):
                    self.fail(st, "success leaves an error code", "error")
            elif go == "error":
                if any(not self.same_value(st, x, y) for x, y in zip(err, g["err"])):
                    self.fail(st, "the error handed to the caller is not the one recorded", "error")
            else:
                if not surely(st, icmp("ne", err[0], 0, 32)) or not err[1][1]:
                    self.fail(st, "null is refused without an error", "error")
                if any(not self.same_value(st, x, y) for x, y in zip(err[2:], g["first"])):
                    self.fail(st, "the position of the error is not that of the null", "error")
        self.tick("outcomes")
        return ()
