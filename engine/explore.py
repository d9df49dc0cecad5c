"""Fixpoint over abstract states.

The interpreter runs a state up to the next point where it asks its environment for something.
There the state is canonicalised (dead registers, unreachable memory and irrelevant unknowns
are dropped; what the driver declares equal to the reference is replaced by one opaque
unknown) and joined with the states already seen at that point. The driver says how the
environment answers; the worklist ends when no new abstract state appears, so every input of
any length is covered."""
from .vals import *
from .interp import *
from . import vals
import time
import collections
import traceback


def live_after(fn, b, ip):
    """registers needed after the call instruction at (b, ip) returned (its result excluded)"""
    ins = fn.blocks[b][ip]
    key = ("after", b, ip)
    c = fn.__dict__.setdefault("_la", {})
    if key in c:
        return c[key]
    out = set()
    if ins.op == "invoke":
        live, phiuse = fn.liveness()
        for s in fn.succs(b):
            out |= live[s]
        out |= {r for (_, r) in phiuse[b]}
    else:
        out |= fn.live_at(b, ip + 1)
    out.discard(ins.d)
    c[key] = frozenset(out)
    return c[key]


class Canon:
    """canonical encoding of a state; objects and unknowns are numbered in order of discovery.
    Numbers are left out of the encoding: they are collected in self.nums with their places,
    for the numeric join (see NumJoin)."""

    def __init__(self, st, rest=None):
        self.st = st
        self.obj = {}
        self.order = []
        self.sym = {}
        self.symorder = []
        self.nums = []      # (value, place)
        self.used = set()
        self.joinbytes = True
        self.keys = False   # indexes of the known elements are numbers to be joined
        # unknown 'remaining lengths' of the sequences being read
        self.rest = [] if rest is None else list(rest) if type(rest) in (list, tuple) else [rest]

    def symid(self, s):
        k = self.sym.get(s)
        if k is None:
            k = self.sym[s] = len(self.sym)
            self.symorder.append(s)
        return k

    def objid(self, i):
        k = self.obj.get(i)
        if k is None:
            k = self.obj[i] = len(self.obj)
            self.order.append(i)
        return k

    def num(self, v, place):
        if place is None:
            if type(v) is int:
                return v
            return ("L", tuple((self.symid(s), c) for s, c in v[1]), v[2])
        r = 0
        if type(v) is tuple:
            d = dict(v[1])
            r = tuple(d.pop(x, 0) for x in self.rest)
            if not any(r):
                r = 0
            v = mklin(d, v[2], 64) if d else v[2]
        else:
            v = sgn(mk(64, v), 64)
        self.nums.append((v, place, r))
        return ("#", r)

    def enc(self, v, place=None):
        t = type(v)
        if t is int:
            return self.num(v, place)
        if t is not tuple:
            if t is frozenset:
                return ("fs",) + tuple(sorted(map(repr, v)))
            if t is list:
                return ("l",) + tuple(self.enc(x) for x in v)
            if t is dict:
                return ("d",) + tuple((repr(k) if type(k) is not tuple else self.enc(k), self.enc(x)) for k, x in sorted(v.items(), key=lambda kv: repr(kv[0])))
            if callable(v):
                return getattr(v, "__qualname__", str(v))
            return v
        if not v:
            return v
        k = v[0]
        if k == "T":
            m = self.st.dom[v[1]]
            if universe(v[1]) == 256 and self.joinbytes:
                return ("T", self.symid(v[1]), v[2], v[3])
            tab = tuple(x if m >> i & 1 else None for i, x in enumerate(v[2]))
            vals_ = {x for x in tab if x is not None}
            if len(vals_) == 1:
                self.used.add(v[1])
                return ("c", vals_.pop())
            return ("T", self.symid(v[1]), tab, v[3])
        if k == "L":
            return self.num(v, place)
        if k == "P":
            o = self.st.mem.get(v[1])
            if o is not None and o.kind == "seq" and o.x.get("esize", 1) > 1 and place is not None and (type(v[2]) is int or v[2][0] == "L"):
                # counted in elements
                es = o.x["esize"]
                off = v[2]
                c = sgn(mk(64, off), 64) if type(off) is int else off[2]
                if type(off) is int or all(x % es == 0 for _, x in off[1]):
                    idx = c // es if type(off) is int else mklin({s: x // es for s, x in off[1]}, c // es, 64)
                    return ("P", self.objid(v[1]), self.num(idx, sub(place, 2) + (("*", es, c % es),)), c % es)
            return ("P", self.objid(v[1]), self.enc(v[2], sub(place, 2)))
        if k == "Q":
            return ("Q", self.symid(v[1]), self.enc(v[2], sub(place, 2)))
        if k == "V":
            return ("V", self.objid(v[1]))
        if k == "t" and len(v) == 4:
            return ("t", self.objid(v[1]), self.enc(v[2], sub(place, 2)), self.enc(v[3], sub(place, 3)))
        if k == "v" and len(v) >= 2 and type(v[1]) is int:
            return ("v", self.symid(v[1])) + tuple(self.enc(x) for x in v[2:])
        if k == "X" and len(v) > 3 and v[1] == "alias":
            return ("X", "alias", self.objid(v[2]), self.objid(v[3]), 1)
        if k == "#obj":
            return ("#obj", self.objid(v[1]))
        if k == "#sym":
            return ("#sym", self.symid(v[1]))
        if k in ("nk", "not"):
            return (k, self.symid(v[1])) + tuple(v[2:])
        if k in ("k", "D", "F", "U", "?", "TI"):
            return v
        if k == "X":
            return tuple(self.enc(x) if type(x) is tuple else x for x in v)
        if k == "S" or k == "A":
            return (k, tuple(self.enc(x, sub(place, (1, i))) for i, x in enumerate(v[1])))
        if k == "b" and type(v[1]) is int:
            return v
        return tuple(self.enc(x, sub(place, i)) if type(x) is tuple or (type(x) is int and place is not None) else x for i, x in enumerate(v))


def sub(place, i):
    if place is None:
        return None
    return place + (i,) if type(i) is not tuple else place + i


def put(v, path, x):
    """copy of the nested tuple v with the leaf at the path replaced"""
    if not path:
        return x
    l = list(v)
    l[path[0]] = put(v[path[0]], path[1:], x)
    return tuple(l)


def write_num(st, place, x):
    if type(place[-1]) is tuple and place[-1][0] == "*":
        x = lin_add(lin_scale(x, place[-1][1], 64), place[-1][2], 64)
        place = place[:-1]
    k = place[0]
    if k == "reg":
        r = st.frames[place[1]].regs
        r[place[2]] = put(r[place[2]], place[3:], x)
    elif k == "ghost":
        st.ghost[place[1]] = put(st.ghost[place[1]], place[2:], x)
    elif k == "cell":
        o = st.wobj(place[1])
        c = o.cells[place[2]]
        o.cells[place[2]] = (put(c[0], place[3:], x),) + tuple(c[1:])
    elif k == "xkey":
        o = st.wobj(place[1])
        o.x["e", put(place[2][1], place[3:], x)] = o.x.pop(place[2])
    elif k == "x":
        o = st.wobj(place[1])
        o.x[place[2]] = put(o.x[place[2]], place[3:], x)


def canonical(m, st, rest=None, numeric=True, keys=False):
    """(shape, Canon); also removes from the state what cannot matter any more"""
    c = Canon(st, rest)
    c.keys = keys
    c.joinbytes = getattr(m.env, "JOINBYTES", True)
    if not numeric:
        c.num = lambda v, place: Canon.num(c, v, None)
    out = []
    n = len(st.frames)
    for k, fr in enumerate(st.frames):
        if k == n - 1:
            live = fr.fn.live_at(fr.b, fr.ip)
        else:
            live = live_after(fr.fn, fr.b, fr.ip)
        regs = {r: v for r, v in fr.regs.items() if r in live}
        fr.regs = regs
        out.append((fr.fn.name, fr.b, fr.ip, getattr(fr.hook, "__qualname__", None),
                    tuple((r, c.enc(regs[r], ("reg", k, r))) for r in sorted(regs))))
    for k in sorted(st.ghost):
        if k[0] == "#":
            continue
        v = st.ghost[k]
        if k[0] == "=":     # exact, never joined
            out.append((k, c.enc(v)))
        else:
            out.append((k, c.enc(v, ("ghost", k))))
    out.append(("exc", c.enc(st.exc) if st.exc else None, tuple(c.enc(x) for x in st.caught)))
    # globals that were written
    for name, i in sorted(st.gl.items()):
        o = st.mem.get(i)
        if o is not None and not o.x.get("const") and o.x.get("dirty"):
            out.append(("g", name, c.objid(i)))
    done = 0
    while done < len(c.order):
        i = c.order[done]
        done += 1
        o = st.mem.get(i)
        if o is None:
            out.append("dead")
            continue
        if o.kind == "global" and o.x.get("const"):
            out.append(("const", o.name))
            continue
        cells = tuple((repr(k), c.enc(o.cells[k][0], ("cell", i, k)), o.cells[k][1]) for k in sorted(o.cells, key=repr))
        xs = []
        for k in sorted(o.x, key=repr):
            if k in ("dirty", "zero", "bytes"):
                continue
            v = o.x[k]
            if type(k) is tuple and k[0] == "e":
                xs.append((("e", c.enc(k[1], ("xkey", i, k) if c.keys else None)), tuple((f, c.enc(v[f][0]), v[f][1]) for f in sorted(v, key=repr))))
            elif k == "n":
                xs.append((k, c.enc(v, ("x", i, k))))
            else:
                xs.append((k, c.enc(v)))
        out.append((o.kind, o.name if o.kind != "alloca" else "", o.size, cells, tuple(xs),
                    getattr(o.lazy, "__qualname__", None), tuple(o.x.get("zero", ()))))
    # facts: only about unknowns that are still there
    numsyms = set()
    for v, _, r in c.nums:
        if type(v) is tuple:
            numsyms |= {s for s, _ in v[1]}
    fs = []
    for f in list(st.facts):
        ss = fact_syms(f)
        if all(s in c.sym for s in ss):
            fs.append((repr(c.enc(f)), st.facts[f]))
        else:
            del st.facts[f]
    out.append(("facts", tuple(sorted(fs))))
    out.append(tuple(st.dom.get(s) if universe(s) != 256 or not c.joinbytes else None for s in c.symorder))
    c.bytes = [s for s in c.symorder if universe(s) == 256] if c.joinbytes else []
    keep = set(c.order)
    for i in list(st.mem):
        if i not in keep and st.mem[i].kind != "global":
            del st.mem[i]
    for s in list(st.dom):
        if s not in c.sym and s not in numsyms and s not in c.used and s not in c.rest:
            del st.dom[s]
    return tuple(out), c


def difference(a, b):
    """a - b when it is constant, else None"""
    if type(a) is int and type(b) is int:
        return a - b
    d = lin_add(a if type(a) is tuple else mk(64, a), b if type(b) is tuple else mk(64, b), 64, -1)
    return sgn(d, 64) if type(d) is int else None


class Rec:
    """what is already known about one set of numbers: a state is stale when a wider one was queued after it"""

    def __init__(self):
        self.classes = self.offs = self.lows = None
        self.ver, self.masks, self.stale = 0, None, False
        self.nums = None        # the numbers of the state that was queued
        self.lowof = {}


class NumJoin:
    """join of the numbers of states that have the same shape: numbers with few values are kept
    apart; the others are generalised to unknowns, keeping the constant differences between them"""

    def __init__(self, K=14):
        self.K = K
        self.vals = None
        self.exact = []
        self.exactset = {}
        self.gen = {}
        self.last = None
        self.first = []

    @staticmethod
    def masks(st, c, old):
        """join of the domains of the byte unknowns: None when nothing is new, else the new masks"""
        new = [st.dom[s] for s in c.bytes]
        if old is not None:
            if all(a & ~b == 0 for a, b in zip(new, old)):
                return None
            new = [a | b for a, b in zip(new, old)]
            for s, x in zip(c.bytes, new):
                st.dom[s] = x
        return new

    def add(self, m, st, c, moving=()):
        """True when the state (possibly generalised in place) is new"""
        nums = [v for v, _, _ in c.nums]
        if self.vals is None:
            self.vals = [set() for _ in nums]
        mv = [k for k, (_, p, _) in enumerate(c.nums) if p[0] == "ghost" and p[1] in moving]
        for e in self.first[-1:]:
            # numbers that move together with those of the reference
            ds = {difference(nums[k], e[k]) for k in mv} - {0, None}
            for k in range(len(nums)):
                if difference(nums[k], e[k]) in ds:
                    self.vals[k] = True
        if len(self.first) < 40:
            self.first.append(nums)
        U = []
        for k, v in enumerate(nums):
            s = self.vals[k]
            if s is not True:
                if type(v) is int:
                    s.add(v)
                    if len(s) > self.K:
                        self.vals[k] = True
                else:
                    self.vals[k] = True
            if self.vals[k] is True:
                U.append(k)
        if not U:
            t = tuple(nums)
            rec = self.exactset.get(t)
            new = self.masks(st, c, rec.masks if rec else None)
            if new is None:
                return False
            if rec is None:
                rec = self.exactset[t] = Rec()
                rec.nums = nums
                self.exact.append(t)
            rec.masks = new
            rec.ver += 1
            self.last = (rec, rec.ver)
            return True
        us = set(U)
        fixed = [k for k in range(len(nums)) if k not in us]
        bkey = (tuple(U), tuple(nums[k] for k in fixed))
        rec = self.gen.get(bkey)
        if rec is None:
            rec = self.gen[bkey] = Rec()
            classes = self.split([list(U)], nums)
            lowof = {k: self.low(st, nums[k]) for k in U}
            rec.masks = self.masks(st, c, None)
            # narrower sets of numbers are covered by this one from now on
            for o in list(self.exactset.values()) + [g for g in self.gen.values() if g is not rec]:
                if o.stale or any(o.nums[k] != nums[k] for k in fixed):
                    continue
                if type(o) is Rec and o.masks is not None and len(o.masks) != len(rec.masks):
                    continue
                o.stale = True
                classes = self.split(classes, o.nums, [[difference(nums[k], nums[cl[0]]) for k in cl] for cl in classes])
                for k in U:
                    lo = o.nums[k] if type(o.nums[k]) is int else o.lowof.get(k)
                    lowof[k] = None if lo is None or lowof[k] is None else min(lo, lowof[k])
                rec.masks = [a | b for a, b in zip(rec.masks, o.masks)]
            for s, x in zip(c.bytes, rec.masks):
                st.dom[s] = x
            rec.classes = classes
            rec.offs = [[difference(nums[k], nums[cl[0]]) for k in cl] for cl in classes]
            rec.lows = [lowof[cl[0]] for cl in classes]
        else:
            ms = self.masks(st, c, rec.masks)
            if ms is not None:
                rec.masks = ms
            classes = self.split(rec.classes, nums, rec.offs)
            lows, changed = [], classes != rec.classes
            old = {k: (i, j) for i, cl in enumerate(rec.classes) for j, k in enumerate(cl)}
            offs = []
            for cl in classes:
                i, j = old[cl[0]]
                base = rec.offs[i][j]
                offs.append([rec.offs[i][old[k][1]] - base for k in cl])
                lo = rec.lows[i]
                if lo is not None:
                    lo = lo + base
                mine = self.low(st, nums[cl[0]])
                if lo is not None and (mine is None or mine < lo):
                    changed = True
                    lo = mine if rec.ver < 4 and mine is not None else (0 if mine is not None and mine >= 0 else None)
                lows.append(lo)
            if not changed and ms is None:
                return False
            rec.classes, rec.offs, rec.lows = classes, offs, lows
            if ms is None:
                for s, x in zip(c.bytes, rec.masks):
                    st.dom[s] = x
        rec.ver += 1
        rec.nums = list(nums)
        rec.lowof = {}
        for cl, off, lo in zip(rec.classes, rec.offs, rec.lows):
            s = st.widesym("n", lo, None)
            for k, o in zip(cl, off):
                v, place, r = c.nums[k]
                x = ("L", ((s, 1),), o, 64)
                rec.nums[k] = x
                rec.lowof[k] = None if lo is None else lo + o
                if r:
                    for y, k in zip(c.rest, r):
                        if k:
                            x = lin_add(x, lin_scale(lin(y), k, 64), 64)
                write_num(st, place, x)
        self.last = (rec, rec.ver)
        return True

    def low(self, st, v):
        lo, _ = st.srange(v if type(v) is tuple else mk(64, v))
        return lo

    def split(self, classes, v, offs=None):
        out = []
        for i, cl in enumerate(classes):
            groups = []
            for j, k in enumerate(cl):
                o = offs[i][j] if offs else None
                for g in groups:
                    d = difference(v[k], v[g[0][0]])
                    if d is not None and (offs is None or d == o - g[0][1]):
                        g.append((k, o))
                        break
                else:
                    groups.append([(k, o)])
            out += [[k for k, _ in g] for g in groups]
        return out


def fact_syms(f):
    if f[0] in ("nk", "not"):
        return {f[1]}
    return syms_of(f) | vsyms(f)


def vsyms(v, out=None):
    """symbols of opaque string pieces"""
    if out is None:
        out = set()
    if type(v) is tuple and v:
        if v[0] == "v" and len(v) >= 2 and type(v[1]) is int:
            out.add(v[1])
        for x in v:
            if type(x) is tuple:
                vsyms(x, out)
    return out


def subst(st, f):
    """rewrites every value of the state with the leaf mapping f (see map_syms)"""
    def g(v):
        if type(v) is tuple:
            return map_syms(v, f)
        return v
    for fr in st.frames:
        fr.regs = {r: g(v) for r, v in fr.regs.items()}
    for i in list(st.mem):
        o = st.mem[i]
        if o.kind == "global" and o.x.get("const"):
            continue
        o2 = o.copy()
        o2.cells = {k: ((g(c[0]),) + tuple(c[1:])) for k, c in o.cells.items()}
        x2 = {}
        for k, v in o.x.items():
            if type(k) is tuple and k[0] == "e":
                x2["e", g(k[1])] = {ff: ((g(c[0]),) + tuple(c[1:])) for ff, c in v.items()}
            elif type(v) is tuple:
                x2[k] = g(v)
            else:
                x2[k] = v
        o2.x = x2
        st.mem[i] = o2
    st.facts = {g(k): v for k, v in st.facts.items()}
    for k, v in list(st.ghost.items()):
        if type(v) is tuple:
            st.ghost[k] = g(v)


class Finding:
    def __init__(self, what, where, path, rule=None, func=None):
        self.what, self.where, self.path, self.rule, self.func = what, where, path, rule, func

    def key(self):
        return (self.what, self.where)


class Anchor(Exception):
    """something the check is about was not found in the program"""


class Driver:
    """what a driver provides; see drv_*.py"""
    name = "driver"
    MAXSTATES = 60000
    MAXFINDINGS = 8
    K = 14              # values of a number that are kept apart at one program point
    PATIENCE = 20       # seconds after the first finding
    TIME = 10 ** 9      # seconds for one analysis
    DEADLINE = 10 ** 12 # when all analyses of this run must be done
    KEYS = False
    moving = ()

    def __init__(self, mod, models):
        self.mod = mod
        self.m = Machine(mod, models, self)
        self.seen = {}
        self.findings = {}
        self.problems = {}
        self.stats = {"states": 0, "segments": 0, "returns": 0, "throws": 0}
        self.suspends = {}

    # hooks -------------------------------------------------------------
    RESTLO = 1

    def abstract(self, st, s):
        """generalises a suspended state before it is joined"""

    def resume(self, st, s):
        """the continuations of a suspended state"""
        raise NotImplementedError

    def on_return(self, st, val):
        """called at the end of the analysed function; may return new states"""
        return ()

    def on_throw(self, st, exc):
        raise Violation("an exception escapes (%s)" % (exc[0],), rule="exception")

    def on_exit(self, st, args):
        return ()

    # -------------------------------------------------------------------
    def report(self, st, v):
        where, func = v.info.get("where") or self.m.where(st)
        f = Finding(v.what, where, self.describe(st), v.info.get("rule") or "memory", func)
        self.findings.setdefault(f.key(), f)

    def describe(self, st):
        out = []
        for n in st.path(400):
            if n[0] == "in":
                out.append(("in", n[1]))
            elif n[0] == "br":
                out.append(("br", self.mod.loc(n[1]), n[2]))
            elif n[0] == "throw":
                out.append(("throw", self.mod.loc(n[1]), n[2]))
        # short: inputs with the last decisions
        ins = [x for x in out if x[0] == "in"]
        brs = [x for x in out if x[0] != "in"][-12:]
        return ["input: " + " ".join(str(x[1]) for x in ins[-60:])] + ["%s %s" % (b[1], b[2]) for b in brs]

    def explore(self, starts):
        work = collections.deque(starts)
        first, begun = None, time.time()
        while work:
            st = work.popleft()
            if type(st) is tuple:
                st, s, (rec, ver) = st
                if rec.stale or rec.ver != ver:
                    self.stats["covered"] = self.stats.get("covered", 0) + 1
                    continue
                try:
                    work.extend(self.settle(Result("resume", st, s)))
                except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError, RecursionError) as e:
                    self.problem(Unmodelled("internal %s: %s at %s" % (type(e).__name__, e, traceback.format_exc().strip().split("\n")[-3].strip())), st)
                continue
            self.stats["segments"] += 1
            late = False
            try:
                for r in self.m.run(st):
                    work.extend(self.settle(r))
                    now = time.time()
                    if now > self.DEADLINE or now - begun > self.TIME or self.findings and first is not None and now - first > self.PATIENCE:
                        late = True
                        break
                    if self.findings and first is None:
                        first = now
            except (KeyError, IndexError, TypeError, ValueError, AttributeError, AssertionError, RecursionError) as e:
                # code that the models did not foresee: this part is not analysed
                self.problem(Unmodelled("internal %s: %s at %s" % (type(e).__name__, e, traceback.format_exc().strip().split("\n")[-3].strip())), st)
            if self.findings:
                if first is None:
                    first = time.time()
                if late or len(self.findings) >= self.MAXFINDINGS or time.time() - first > self.PATIENCE:
                    self.stats["stopped"] = 1
                    break
            if late or time.time() > self.DEADLINE:
                self.problem(Unmodelled("the analysis took too long"))
                break
            if self.stats["states"] > self.MAXSTATES:
                self.problem(Unmodelled("more than %d abstract states" % self.MAXSTATES))
                break
        return self

    def settle(self, r):
        """handles a result, splitting the state when the driver needs a decision"""
        out, todo = [], [r.st]
        while todo:
            st = todo.pop()
            keep = st.copy()
            try:
                out.extend(self.handle(Result(r.kind, st, r.val)))
            except Fork as f:
                for val in (True, False):
                    s2 = keep.copy()
                    try:
                        if s2.assume(f.cond, val):
                            todo.append(s2)
                    except Infeasible:
                        pass
            except ForkSym as f:
                for mask in f.masks:
                    if keep.dom[f.sym] & mask:
                        s2 = keep.copy()
                        s2.dom[f.sym] &= mask
                        todo.append(s2)
            except Violation as v:
                self.report(st, v)
            except Unmodelled as u:
                self.problem(u, st)
            except Infeasible:
                pass
        return out

    def forked(self, st, f):
        """runs f on the state, splitting it when a decision is needed; returns the final states"""
        out, todo = [], [st]
        while todo:
            st = todo.pop()
            keep = st.copy()
            try:
                r = f(st)
                out.append(st) if r is None else out.extend(r)
            except Fork as e:
                for val in (True, False):
                    s2 = keep.copy()
                    try:
                        if s2.assume(e.cond, val):
                            todo.append(s2)
                    except Infeasible:
                        pass
            except ForkSym as e:
                for mask in e.masks:
                    if keep.dom[e.sym] & mask:
                        s2 = keep.copy()
                        s2.dom[e.sym] &= mask
                        todo.append(s2)
            except Violation as v:
                self.report(st, v)
            except Infeasible:
                pass
        return out

    def problem(self, u, st=None):
        ctx = getattr(u, "ctx", None)
        if ctx is None and st is not None and st.frames:
            ctx = self.m.where(st)
        self.problems.setdefault("%s at %s" % (u, ctx), 0)
        self.problems["%s at %s" % (u, ctx)] += 1

    def join(self, st, s):
        """True when the state is new"""
        rest = self.abstract(st, s)
        lows = []
        for y in [rest] if type(rest) is int else rest or ():   # every number from RESTLO on
            if type(st.dom.get(y)) is tuple:
                lo = st.dom[y][0]
                lows.append(self.RESTLO if lo is not None and lo >= self.RESTLO else lo)
                st.dom[y] = (lows[-1], None, 1, 0)
        key, c = canonical(self.m, st, rest, keys=self.KEYS)
        key = key, tuple(lows)
        j = self.seen.get(key)
        if j is None:
            j = self.seen[key] = NumJoin(self.K)
        if not j.add(self.m, st, c, self.moving):
            return False
        self.joined = j.last
        self.stats["states"] += 1
        return True

    def handle(self, r):
        st = r.st
        if r.kind == "violation":
            raise r.val
        if r.kind == "unmodelled":
            raise r.val
        if r.kind == "suspend":
            self.suspends[r.val.kind] = self.suspends.get(r.val.kind, 0) + 1
            if not self.join(st, r.val):
                return []
            return [(st, r.val, self.joined)]
        if r.kind == "resume":
            return list(self.resume(st, r.val))
        if r.kind == "return":
            self.stats["returns"] += 1
            return list(self.on_return(st, r.val))
        if r.kind == "throw":
            self.stats["throws"] += 1
            return list(self.on_throw(st, r.val) or ())
        if r.kind == "exit":
            return list(self.on_exit(st, r.val))
        raise Unmodelled("result " + r.kind)
