"""Abstract interpreter over the normalised IR.

Domain: registers and memory cells hold affine expressions over symbols,
pointers (region + affine offset), function pointers or opaque tokens; the
symbols are related by a polyhedron (poly.py).  States are partitioned by
program point, monitor state and pointer shape (property simulation, Das et
al. 2002); states of one partition are joined at loop heads and widened until
nothing changes, so the result covers every path and every iteration count.

A property is a Monitor: an automaton over the calls to opaque operations
(callbacks, element operations, library primitives) whose ghost variables are
part of the abstract state.

mode "fix":    join + widen at loop heads, up to the fixpoint (proof).
mode "unroll": states are not joined; each loop head is passed at most K times
               per path.  Used only to confirm alarms: an obligation that the
               fixpoint cannot discharge is reported when it already fails on
               a path without any join, and is otherwise 'unproved'.
"""
import sys
import time
from poly import Poly, Lin, Bottom, ZERO, ONE

sys.setrecursionlimit(10000)


class Ptr:
    __slots__ = ("r", "o")

    def __init__(self, r, o=ZERO):
        self.r = r
        self.o = Lin.c(o) if isinstance(o, int) else o

    def __eq__(self, x):
        return isinstance(x, Ptr) and x.r == self.r and x.o == self.o

    def __hash__(self):
        return hash((self.r, self.o))

    def __repr__(self):
        return "&%s[%r]" % (self.r, self.o)


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, x):
        return isinstance(x, Fn) and x.name == self.name

    def __hash__(self):
        return hash(("fn", self.name))

    def __repr__(self):
        return "fn:" + self.name


class Agg:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __eq__(self, x):
        return isinstance(x, Agg) and x.v == self.v

    def __hash__(self):
        return hash(self.v)

    def __repr__(self):
        return "{%s}" % ", ".join(map(repr, self.v))


class Cat:
    """integer made of adjacent memory cells: ((off, size, val), ...)"""
    __slots__ = ("v", "size")

    def __init__(self, v, size):
        self.v = tuple(v)
        self.size = size

    def __eq__(self, x):
        return isinstance(x, Cat) and x.v == self.v and x.size == self.size

    def __hash__(self):
        return hash((self.v, self.size))


class Tok:
    """opaque token (floating point value, exception, unknown)"""
    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, x):
        return isinstance(x, Tok) and x.n == self.n

    def __hash__(self):
        return hash(("tok", self.n))

    def __repr__(self):
        return "tok:%s" % (self.n,)


UNDEF = Tok("undef")
THROW = Tok("throw")


class RInfo:
    __slots__ = ("size", "kind", "alive", "lossy", "tag", "layout", "es", "fill")

    def __init__(self, size=None, kind="heap", alive=True, lossy=False, tag=None, layout=None, es=1, fill=None):
        self.size, self.kind, self.alive, self.lossy, self.tag, self.layout, self.es = size, kind, alive, lossy, tag, layout, es
        self.fill = fill        # value of the bytes without a cell (memset)

    def copy(self, **kw):
        r = RInfo(self.size, self.kind, self.alive, self.lossy, self.tag, self.layout, self.es, self.fill)
        for k, v in kw.items():
            setattr(r, k, v)
        return r


class Frame:
    __slots__ = ("fn", "b", "i", "prev", "regs", "uid")

    def __init__(self, fn, uid):
        self.fn = fn
        self.b = 0
        self.i = 0
        self.prev = None
        self.regs = {}
        self.uid = uid

    def copy(self):
        f = Frame(self.fn, self.uid)
        f.b, f.i, f.prev = self.b, self.i, self.prev
        f.regs = dict(self.regs)
        return f


class State:
    __slots__ = ("frames", "mem", "rinfo", "poly", "facts", "ghost", "trace", "visits", "exc", "own", "lossy_path")

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.rinfo = {}
        self.poly = Poly()
        self.facts = {}
        self.ghost = {}
        self.trace = ()
        self.visits = {}
        self.exc = None
        self.lossy_path = False     # a branch was decided on an unmodelled value

    def copy(self):
        s = State()
        s.lossy_path = self.lossy_path
        s.frames = [f.copy() for f in self.frames]
        s.mem = {r: dict(c) for r, c in self.mem.items()}
        s.rinfo = dict(self.rinfo)
        s.poly = self.poly.copy()
        s.facts = dict(self.facts)
        s.ghost = dict(self.ghost)
        s.trace = self.trace
        s.visits = dict(self.visits)
        s.exc = self.exc
        return s

    @property
    def top(self):
        return self.frames[-1]

    def ev(self, *e):
        self.trace = self.trace + (e,)
        if len(self.trace) > 60:
            self.trace = self.trace[-60:]


class AnalysisError(Exception):
    pass


class PathEnd(Exception):
    """the current abstract path ends (violation recorded or infeasible)"""


class Violation:
    def __init__(self, rule, msg, loc, trace, lossy):
        self.rule, self.msg, self.loc, self.trace, self.lossy = rule, msg, loc, trace, lossy

    def key(self):
        return (self.rule, self.loc_str())

    def loc_str(self, limit=4):
        if not self.loc:
            return "?"
        return " < ".join("%s:%s(%s)" % (l[0], l[1], l[2]) for l in self.loc[:limit])


class Monitor:
    throws = staticmethod(lambda name: False)
    name = "monitor"

    def call(self, I, s, ins, name, dem, args):
        return None

    def exit(self, I, s, kind, val):
        pass

    def on_access(self, I, s, ins, ptr, size, write):
        pass

    def init_cell(self, I, s, region, off, size, ty):
        """initial content of an input region; None -> fresh symbol"""
        return None

    def mode(self, I, s):
        return ()

    def slots(self, I, s):
        return ()

    def head(self, I, s):
        """called before a state is stored at a loop head"""

    def infeasible(self, I, s):
        """an undischarged obligation on a state that cannot exist"""
        return False

    cut32 = True        # a value that may need more than 32 bits is not cut to 32 bits
    const_only = ()     # regions whose cells are joined only when they are equal constants

    def invariants(self, I, s):
        """constraints true of every concrete state, re-asserted after a join"""

    taint = False       # failures behind a branch on an unmodelled value are not reported
    can_bound = False
    on_load = None      # (I, s, ins, p, size) -> None / [(state, value)]
    on_store = None     # (I, s, ins, p, size, v), after the store

    def finish(self, I):
        """called once after the whole analysis of an entry"""

    def bound(self, I, s, n):
        """unroll mode: restrict the start state to inputs of size <= n"""
        return True


LIMIT_DEFAULT = 400000


class Interp:
    def __init__(self, mod, monitor, models=(), mode="fix", unroll=3, budget_s=300, peel=1, max_steps=3000000, verbose=False):
        self.m = mod
        self.mon = monitor
        self.models = list(models)
        self.mode = mode
        self.K = unroll
        self.peel = peel
        self.budget = budget_s
        self.max_steps = max_steps
        self.violations = []
        self.obl = 0
        self.dis = 0
        self.unproved = []
        self.oblsites = set()
        self.n = 0
        self.steps = 0
        self.states = 0
        self.heads = {}
        self.paths_done = 0
        self.havoc = {}
        self.visited = set()     # (function, block)
        self.verbose = verbose
        self.truncated = False
        self.callsites = set()
        self.tags = {}
        self.slice = None
        self.soft = False        # undischarged obligations do not end the path

    # ------------------------------------------------------------ symbols
    def fresh(self, hint="v", w=None, s=None, lossy=False, signed=True, lo=None, hi=None):
        self.n += 1
        e = Lin.sym("%s%s%d" % ("?" if lossy else "", hint, self.n))
        if s is not None:
            if w is not None and w <= 32:
                lo = -(1 << (w - 1)) if lo is None else lo
                hi = (1 << (w - 1)) - 1 if hi is None else hi
            if lo is not None:
                s.poly.add_ge(e - lo)
            if hi is not None:
                s.poly.add_ge(-e + hi)
        return e

    # ------------------------------------------------------------ obligations
    def loc(self, ins):
        return ins.get("loc") if ins else None

    def is_lossy(self, s, *vals):
        for v in vals:
            if isinstance(v, Ptr):
                if self.is_lossy(s, v.o) or str(v.r).startswith("?"):
                    return True
            elif isinstance(v, Lin):
                for x in s.poly.norm(v).syms():
                    if str(x).startswith("?"):
                        return True
            elif isinstance(v, Tok) and str(v.n).startswith("?"):
                return True
        return False

    def fail(self, s, rule, msg, ins=None, lossy=False, end=True):
        lossy = lossy or (self.mon.taint and s.lossy_path)
        v = Violation(rule, msg, self.full_loc(s, ins), s.trace, lossy)
        (self.violations if not lossy else self.unproved).append(v)
        if end:
            raise PathEnd()

    def full_loc(self, s, ins):
        out = list(ins.get("loc", [])) if ins else []
        for f in reversed(s.frames[:-1]):
            ci = f.fn.blocks[f.b][f.i] if f.i < len(f.fn.blocks[f.b]) else None
            if ci:
                out += ci.get("loc", [])
        if not out and s.frames:
            # nearest located instruction of the block
            f = s.frames[-1]
            for x in f.fn.blocks[f.b][f.i:] + f.fn.blocks[f.b]:
                if x.get("loc"):
                    return x["loc"]
            return [[f.fn.file or "?", f.fn.line or 0, f.fn.dem]]
        return out

    def site(self, s, rule, ins):
        l = self.full_loc(s, ins)
        self.oblsites.add((rule, tuple(map(tuple, l[:2]))))

    def need(self, s, ok, rule, msg, ins=None, lossyvals=()):
        """ok: True / False / None (not decided)"""
        self.obl += 1
        self.site(s, rule, ins)
        if ok is True:
            self.dis += 1
            return True
        if self.mon.infeasible(self, s):
            self.dis += 1
            raise PathEnd()
        self.fail(s, rule, msg, ins, lossy=self.is_lossy(s, *lossyvals), end=not self.soft)

    def need_eq(self, s, a, b, rule, msg, ins=None):
        r = self.same(s, a, b)
        return self.need(s, r, rule, "%s (got %s, expected %s)" % (msg, self.show(s, a), self.show(s, b)), ins, (a, b))

    def need_ge(self, s, e, rule, msg, ins=None):
        r = True if s.poly.entails_ge(e) else None
        return self.need(s, r, rule, "%s (need %s >= 0)" % (msg, self.show(s, e)), ins, (e,))

    def show(self, s, v):
        if isinstance(v, Lin):
            return repr(s.poly.norm(v))
        if isinstance(v, Ptr):
            return "&%s[%r]" % (v.r, s.poly.norm(v.o))
        return repr(v)

    def same(self, s, a, b):
        """True / False / None"""
        if isinstance(a, Lin) and isinstance(b, Lin):
            d = a - b
            if s.poly.entails_eq(d):
                return True
            if s.poly.entails_ne(d):
                return False
            return None
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r != b.r:
                return False
            return self.same(s, a.o, b.o)
        if isinstance(a, Ptr) and isinstance(b, Lin):
            n = s.poly.norm(b)
            if n.is_const() and n.k == 0:
                return False
            return None
        if isinstance(b, Ptr) and isinstance(a, Lin):
            return self.same(s, b, a)
        if isinstance(a, (Fn,)) and isinstance(b, Lin) or isinstance(b, Fn) and isinstance(a, Lin):
            return False
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.name == b.name
        if isinstance(a, Agg) and isinstance(b, Agg) and len(a.v) == len(b.v):
            rs = [self.same(s, x, y) for x, y in zip(a.v, b.v)]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if type(a) is type(b) and a == b:
            return True
        return None

    # ------------------------------------------------------------ splitting
    def assume_ge(self, s, e):
        """constrain; False when infeasible"""
        if s.poly.entails_ge(-e - 1):
            return False
        try:
            s.poly.add_ge(e)
        except Bottom:
            return False
        return True

    def assume_eq(self, s, e):
        if s.poly.entails_ne(e):
            return False
        try:
            s.poly.add_eq(e)
        except Bottom:
            return False
        return True

    def mark(self, s, e):
        if self.mon.taint and not s.lossy_path and self.is_lossy(s, e):
            s.lossy_path = True

    def split_ge(self, s, e):
        """[(state, bool)] for e >= 0"""
        if s.poly.entails_ge(e):
            return [(s, True)]
        if s.poly.entails_ge(-e - 1):
            return [(s, False)]
        self.mark(s, e)
        t = s.copy()
        out = []
        if self.assume_ge(s, e):
            out.append((s, True))
        if self.assume_ge(t, -e - 1):
            out.append((t, False))
        return out

    def split_eq(self, s, e):
        e = s.poly.norm(e)
        if s.poly.entails_eq(e):
            return [(s, True)]
        if s.poly.entails_ne(e):
            return [(s, False)]
        self.mark(s, e)
        out = []
        lo = s.poly.entails_ge(e)        # e >= 0
        hi = s.poly.entails_ge(-e)       # e <= 0
        t = s.copy()
        if self.assume_eq(t, e):
            out.append((t, True))
        if not hi:
            u = s.copy() if not lo else s
            if self.assume_ge(u, e - 1):
                out.append((u, False))
        if not lo:
            if self.assume_ge(s, -e - 1):
                out.append((s, False))
        return out

    def split_same(self, s, a, b):
        if isinstance(a, Lin) and isinstance(b, Lin):
            return self.split_eq(s, a - b)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r:
            return self.split_eq(s, a.o - b.o)
        r = self.same(s, a, b)
        if r is not None:
            return [(s, r)]
        return self.split_fact(s, "==", (a, b))

    def split_fact(self, s, name, args):
        """uninterpreted boolean: memoised per state"""
        r = self.get_fact(s, name, args)
        if r is not None:
            return [(s, bool(r))]
        if self.mon.taint and any(self.is_lossy(s, x) for x in args):
            s.lossy_path = True
        t = s.copy()
        s.facts[(name, tuple(args))] = 1
        t.facts[(name, tuple(args))] = 0
        return [(s, True), (t, False)]

    def get_fact(self, s, name, args):
        k = (name, tuple(args))
        if k in s.facts:
            return s.facts[k]
        for (n, a), r in s.facts.items():
            if n == name and len(a) == len(args) and all(self.same(s, x, y) is True for x, y in zip(a, args)):
                return r
        return None

    def set_fact(self, s, name, args, r):
        s.facts[(name, tuple(args))] = r

    # ------------------------------------------------------------ operands
    def val(self, s, o):
        k = o["k"]
        if k == "r":
            f = s.top
            v = f.regs.get(o["id"])
            if v is None:
                return UNDEF
            return v
        if k == "i":
            if o["w"] == 1:
                return Lin.c(o["v"] & 1)
            return Lin.c(o["v"])
        if k == "null":
            return ZERO
        if k == "g":
            f = self.m.funcs.get(o["name"])
            if f is not None:
                return Fn(o["name"])
            return Ptr("g:" + o["name"])
        if k == "ptradd":
            b = self.val(s, o["base"])
            if isinstance(b, Ptr):
                return Ptr(b.r, b.o + o["off"])
            if isinstance(b, Lin):
                return b + o["off"]
            return Tok("?ptradd")
        if k == "undef":
            return UNDEF
        if k == "zero":
            return Tok("zero:" + o.get("ty", ""))
        if k == "agg":
            return Agg(self.val(s, x) for x in o["ops"])
        if k == "fp":
            return Tok("fp:" + o["v"])
        if k == "ce":
            if o["op"] in ("inttoptr", "ptrtoint", "bitcast") and len(o.get("ops", ())) == 1:
                return self.val(s, o["ops"][0])
            return Tok("?ce:%s" % o["op"])
        if k == "big":
            return Tok("big:" + o["v"])
        return Tok("?" + k)

    # ------------------------------------------------------------ memory
    def rsize(self, s, r):
        i = self.rinf(s, r)
        return i.size

    def rinf(self, s, r):
        i = s.rinfo.get(r)
        if i is None:
            if isinstance(r, str) and r.startswith("g:"):
                g = self.m.globals.get(r[2:], {})
                i = RInfo(Lin.c(g["size"]) if "size" in g else None, "global")
                if not g.get("const"):
                    i.lossy = True
            elif isinstance(r, tuple) and r and r[0] == "keep":
                i = RInfo(None, "input")
            else:
                i = RInfo(None, "unknown", lossy=True)
            s.rinfo[r] = i
        return i

    def overlaps(self, s, o1, n1, o2, n2):
        """False: provably disjoint; True: may overlap"""
        d = s.poly.norm(o1 - o2)
        if not d.t:
            return not (d.k >= n2 or -d.k >= n1)
        if s.poly.entails_ge(d - n2) or s.poly.entails_ge(-d - n1):
            return False
        return True

    def load(self, s, ins, p, size, ty):
        if not isinstance(p, Ptr):
            return self.bad_ptr(s, ins, p, size, ty)
        self.mon.on_access(self, s, ins, p, size, False)
        inf = self.rinf(s, p.r)
        if not inf.alive:
            self.dead(s, ins, p, "read")
        cells = s.mem.get(p.r, {})
        o = s.poly.norm(p.o)
        c = cells.get(p.o) or cells.get(o)
        if c and c[0] == size:
            return self.retype(s, c[1], ty)
        parts = []
        for co, (cs, cv) in cells.items():
            if cs == size and s.poly.entails_eq(co - o):
                return self.retype(s, cv, ty)
        for co, (cs, cv) in cells.items():
            d = s.poly.norm(co - o)
            if not d.t and 0 <= d.k and d.k + cs <= size:
                parts.append((d.k, cs, cv))
            elif not d.t and d.k < 0 and d.k + cs >= size - 0 and -d.k + size <= cs:
                # inside a bigger cell
                v = self.extract(s, cv, -d.k, size, ty)
                if v is not None:
                    return v
        if parts:
            parts.sort()
            tot = sum(x[1] for x in parts)
            if tot == size or (inf.kind in ("alloca",) and not inf.lossy):
                return Cat(parts, size)
        if isinstance(p.r, str) and p.r.startswith("g:"):
            v = self.global_cell(s, p, size, ty)
            if v is not None:
                return v
        v = self.mon.init_cell(self, s, p.r, o, size, ty)
        if v is None:
            if inf.kind == "alloca" and not inf.lossy:
                if any(self.overlaps(s, co, cs, o, size) for co, (cs, _) in cells.items()):
                    v = self.fresh_ty(s, ty, size, lossy=True)
                elif inf.fill is not None and size == 1:
                    return Lin.c(inf.fill)
                elif inf.fill is not None:
                    v = self.fresh_ty(s, ty, size, lossy=True)
                else:
                    return UNDEF
            else:
                v = self.fresh_ty(s, ty, size, lossy=inf.lossy or inf.kind == "unknown")
        if isinstance(v, tuple) and v[0] == "nomemo":
            return v[1]
        s.mem.setdefault(p.r, {})[o] = (size, v)
        return v

    def retype(self, s, v, ty):
        return v

    def extract(self, s, v, off, size, ty):
        if isinstance(v, Cat):
            for o, n, x in v.v:
                if o == off and n == size:
                    return x
        if isinstance(v, Lin):
            n = s.poly.norm(v)
            if n.is_const():
                x = (int(n.k) >> (8 * off)) & ((1 << (8 * size)) - 1)
                if x >> (8 * size - 1):
                    x -= 1 << (8 * size)
                return Lin.c(x)
        return None

    def global_cell(self, s, p, size, ty):
        g = self.m.globals.get(p.r[2:])
        o = s.poly.norm(p.o)
        if g is None or not g.get("const"):
            return None
        if not o.is_const():
            if "str" in g and size == 1:
                b = bytes.fromhex(g["str"])
                return None
            return None
        if "str" in g:
            b = bytes.fromhex(g["str"])
            k = int(o.k)
            if 0 <= k and k + size <= len(b):
                return Lin.c(int.from_bytes(b[k:k + size], "little", signed=True))
            return None
        c = self.m.flat(p.r[2:]).get(int(o.k))
        if c and c[0] == size:
            return self.val(s, c[1])
        return None

    def fresh_ty(self, s, ty, size, lossy=False):
        if ty == "ptr":
            self.n += 1
            return self.fresh("p", lossy=lossy)
        if ty.startswith("i"):
            w = int(ty[1:])
            if w == 1:
                return self.fresh("b", s=s, lo=0, hi=1, lossy=lossy)
            if w <= 64:
                return self.fresh("i", w=w, s=s, lossy=lossy)
        if ty.startswith("{"):
            tys = split_struct(ty)
            if tys:
                return Agg(self.fresh_ty(s, t, 8, lossy) for t in tys)
        self.n += 1
        return Tok(("?" if lossy else "") + "u%d" % self.n)

    def dead(self, s, ins, p, what):
        inf = self.rinf(s, p.r)
        if inf.kind == "alloca":
            self.fail(s, "use-after-scope", "an object is %s after its lifetime has ended (%s)" % (what, inf.tag or "temporary"), ins)
        if inf.kind in ("heap", "vec"):
            self.fail(s, "use-after-free", "memory is %s after it was released" % what, ins)

    def bad_ptr(self, s, ins, p, size, ty):
        if isinstance(p, Lin):
            n = s.poly.norm(p)
            if n.is_const() and n.k == 0:
                self.fail(s, "null-deref", "null pointer dereferenced", ins)
        if p is UNDEF or p == UNDEF:
            self.fail(s, "uninit", "dereference of an uninitialised pointer", ins)
        return self.fresh_ty(s, ty, size, lossy=True)

    def store(self, s, ins, p, size, v):
        if not isinstance(p, Ptr):
            if isinstance(p, Lin):
                n = s.poly.norm(p)
                if n.is_const() and n.k == 0:
                    self.fail(s, "null-deref", "store through a null pointer", ins)
            # unknown target: nothing tracked can be pinned down
            self.havoc["store-unknown"] = self.havoc.get("store-unknown", 0) + 1
            return
        self.mon.on_access(self, s, ins, p, size, True)
        if not self.rinf(s, p.r).alive:
            self.dead(s, ins, p, "written")
        self.write(s, p, size, v)

    def write(self, s, p, size, v):
        self.rinf(s, p.r)
        cells = s.mem.setdefault(p.r, {})
        o = s.poly.norm(p.o)
        for co in list(cells):
            cs, cv = cells[co]
            if self.overlaps(s, co, cs, o, size):
                del cells[co]
                d = s.poly.norm(co - o)
                if d.t:
                    s.rinfo[p.r] = self.rinf(s, p.r).copy(lossy=True)
                elif not (0 <= d.k and d.k + cs <= size):
                    # partially overwritten: keep remaining pieces if possible
                    if isinstance(cv, Cat):
                        for po, pn, pv in cv.v:
                            a = d.k + po
                            if a + pn <= 0 or a >= size:
                                cells[s.poly.norm(co + po)] = (pn, pv)
                    elif isinstance(cv, Lin) and s.poly.norm(cv).is_const():
                        for a, b in ((d.k, 0), (size, d.k + cs)):
                            if b > a:
                                cells[s.poly.norm(o + a)] = (b - a, self.extract(s, cv, a - d.k, b - a, "i%d" % (8 * (b - a))))
                    else:
                        s.rinfo[p.r] = self.rinf(s, p.r).copy(lossy=True)
        if isinstance(v, Cat):
            for po, pn, pv in v.v:
                cells[s.poly.norm(o + po)] = (pn, pv)
            return
        if isinstance(v, Tok) and v == UNDEF:
            return
        cells[o] = (size, v)

    def havoc_region(self, s, r):
        s.mem.pop(r, None)
        s.rinfo[r] = self.rinf(s, r).copy(lossy=True)

    def memcpy(self, s, ins, dst, src, n):
        if not isinstance(dst, Ptr):
            return
        nn = s.poly.norm(n) if isinstance(n, Lin) else None
        if nn is None or not nn.is_const() or not isinstance(src, Ptr):
            if isinstance(src, Ptr):
                self.mon.on_access(self, s, ins, src, n, False)
            self.mon.on_access(self, s, ins, dst, n, True)
            if nn is not None and nn.is_const() and nn.k == 0:
                return
            self.havoc_region(s, dst.r)
            return
        k = int(nn.k)
        if k == 0:
            return
        self.mon.on_access(self, s, ins, src, k, False)
        self.mon.on_access(self, s, ins, dst, k, True)
        so = s.poly.norm(src.o)
        take = []
        for co, (cs, cv) in s.mem.get(src.r, {}).items():
            d = s.poly.norm(co - so)
            if not d.t and 0 <= d.k and d.k + cs <= k:
                take.append((d.k, cs, cv))
        covered = sum(c[1] for c in take)
        srcinf = self.rinf(s, src.r)
        if isinstance(src.r, str) and src.r.startswith("g:") and not take:
            g = self.m.globals.get(src.r[2:], {})
            if g.get("const"):
                for off, (sz, o) in self.m.flat(src.r[2:]).items():
                    d = Lin.c(off) - so
                    if not d.t and 0 <= d.k and d.k + sz <= k:
                        take.append((d.k, sz, self.val(s, o)))
        # clear destination
        self.write(s, dst, k, UNDEF)
        for off, cs, cv in take:
            s.mem.setdefault(dst.r, {})[s.poly.norm(dst.o + off)] = (cs, cv)
        if covered < k and srcinf.fill is not None and not srcinf.lossy:
            s.rinfo[dst.r] = self.rinf(s, dst.r).copy(fill=srcinf.fill)
        elif covered < k and (srcinf.lossy or srcinf.kind != "alloca"):
            # unknown rest: materialise lazily as unknown
            if covered == 0 and k <= 8:
                v = self.load(s, ins, src, k, "i%d" % (8 * k))
                self.write(s, dst, k, v)
            else:
                s.rinfo[dst.r] = self.rinf(s, dst.r).copy(lossy=True)

    # ------------------------------------------------------------ driver
    def run(self, fname, prepare):
        """prepare(I, state, frame) binds arguments; may return a list of states"""
        fn = self.m.funcs.get(fname)
        if fn is None or fn.decl:
            raise AnalysisError("entry %s not found in the analysed module" % fname)
        fn.prep()
        s = State()
        f = Frame(fn, 0)
        s.frames.append(f)
        r = prepare(self, s, f)
        starts = r if isinstance(r, list) else [s]
        if self.mode == "unroll" and self.slice is not None:
            starts = [x for x in starts if self.mon.bound(self, x, self.slice)]
        self.t0 = time.time()
        work = list(starts)
        while work:
            s = work.pop()
            try:
                self.advance(s, work)
            except PathEnd:
                pass
            if time.time() - self.t0 > self.budget or self.steps > self.max_steps:
                self.truncated = True
                break
        self.mon.finish(self)
        return self

    def enter(self, s, b):
        """enter block b of the top frame: evaluate phis; returns True to go on"""
        f = s.top
        prev = f.b
        blk = f.fn.blocks[b]
        vals = []
        n = 0
        for i in blk:
            if i["op"] != "phi":
                break
            n += 1
            for p, o in i["in"]:
                if p == prev:
                    vals.append((i["id"], self.val(s, o)))
                    break
        for k, v in vals:
            f.regs[k] = v
        f.prev, f.b, f.i = prev, b, n
        self.visited.add((f.fn.name, b))

    def advance(self, s, work):
        cnt = 0
        while True:
            self.steps += 1
            cnt += 1
            if cnt & 255 == 0 and (time.time() - self.t0 > self.budget):
                self.truncated = True
                return
            f = s.top
            ins = f.fn.blocks[f.b][f.i]
            try:
                outs = self.exec(s, ins)
            except Bottom:
                # one of several successors is contradictory, the others are lost with it
                if self.mode != "unroll":
                    raise AnalysisError("contradictory successor of %s" % ins["op"])
                self.unproved.append(Violation("lost", "contradictory successor", self.full_loc(s, ins), s.trace, True))
                return
            nxt = None
            if self.mode == "unroll" and len(outs) > 1:
                for o in outs:
                    o.visits[None] = o.visits.get(None, 0) + 1
            for o in outs:
                t = o
                if not t.frames:
                    continue
                tf = t.top
                if tf.fn.blocks[tf.b] and tf.i == self.first_nonphi(tf) and tf.b in tf.fn.heads and getattr(tf, "b") is not None and t is not None and self.just_entered(t):
                    t = self.at_head(t)
                    if t is None:
                        continue
                if nxt is None:
                    nxt = t
                else:
                    work.append(t)
            if nxt is None:
                return
            s = nxt

    def first_nonphi(self, f):
        fn = f.fn
        c = fn.__dict__.setdefault("_fnp", {})
        r = c.get(f.b)
        if r is None:
            r = 0
            for i in fn.blocks[f.b]:
                if i["op"] != "phi":
                    break
                r += 1
            c[f.b] = r
        return r

    def just_entered(self, s):
        return s.top.prev is not None and s.top.regs.get("__ent") == 1

    # ------------------------------------------------------------ loop heads
    def at_head(self, s):
        f = s.top
        f.regs["__ent"] = 0
        self.states += 1
        if self.mode == "unroll":
            key = tuple((fr.fn.name, fr.b) for fr in s.frames)
            c, forks, free = s.visits.get(key, (0, -1, 0))
            now = s.visits.get(None, 0)
            if forks == now and free < 2000:
                free += 1       # nothing was undecided since the last visit: the iteration is free
            else:
                c += 1
            if c > self.K:
                self.truncated_paths = getattr(self, "truncated_paths", 0) + 1
                return None
            s.visits[key] = (c, now, free)
            return s
        try:
            self.mon.head(self, s)
        except Bottom:
            return None
        # trace partitioning: the first PEEL iterations of a loop are kept apart
        hk = tuple((fr.fn.name, fr.b) for fr in s.frames)
        back = (f.prev, f.b) in f.fn.retreat
        s.visits[hk] = min(s.visits.get(hk, 0) + 1, self.peel) if back else 0
        slots, shape = self.collect(s)
        key = shape + (s.visits[hk],)
        tag = "h%d" % self.tags.setdefault(key, len(self.tags))
        t = self.rebase(s, slots, tag)
        self.mon.invariants(self, t)
        old = self.heads.get(key)
        if old is None:
            self.heads[key] = (t.copy(), 0)
            return t
        o, n = old
        if self.subsumed(t, o):
            return None
        j = self.merge(o, t, widen=n if n >= 3 else 0)
        self.mon.invariants(self, j)
        self.heads[key] = (j.copy(), n + 1)
        if self.verbose:
            print("HEAD", n, t.poly, "\n   old", o.poly, "\n   new", j.poly, j.facts, j.mem)
        if n > 60:
            raise AnalysisError("no convergence at loop head %s" % (key,))
        return j

    def collect(self, s):
        """[(slotname, getter-value)] and the partition key"""
        slots = []
        shape = []
        # gc: unreachable, unimportant regions are dropped
        for d, fr in enumerate(s.frames):
            if d == len(s.frames) - 1:
                live = fr.fn.livein[fr.b]
            else:
                live = fr.fn.live_after(fr.b, fr.i)
            fr.regs = {k: v for k, v in fr.regs.items() if k in live}
            shape.append(("f", fr.fn.name, fr.b))
        self.gc(s)
        for d, fr in enumerate(s.frames):
            for k in sorted(fr.regs):
                self.slot(slots, shape, s, ("r", d, k), fr.regs[k])
        for r in sorted(s.mem, key=str):
            if self.symcell(s, r):
                continue
            for o in sorted(s.mem[r], key=lambda x: (str(x.t), x.k)):
                if o.is_const():
                    self.slot(slots, shape, s, ("m", str(r), o.k, s.mem[r][o][0]), s.mem[r][o][1])
        for r in sorted(s.rinfo, key=str):
            i = s.rinfo[r]
            if i.kind in ("heap", "ext", "vec"):
                shape.append(("ri", str(r), i.alive, i.tag))
            if i.fill is not None:
                shape.append(("rf", str(r), i.fill))
            if i.size is not None and any(not x.startswith("$") for x in i.size.syms()):
                self.slot(slots, shape, s, ("z", str(r)), i.size)
        for g in sorted(s.ghost):
            v = s.ghost[g]
            if isinstance(v, (Lin, Ptr)):
                self.slot(slots, shape, s, ("g", g), v)
            else:
                shape.append(("g", g, v))
        if s.exc is not None:
            shape.append(("exc", 1))
        shape.append(("mode", self.mon.mode(self, s)))
        return slots, tuple(shape)

    def slot(self, slots, shape, s, name, v):
        if isinstance(v, Lin):
            n = s.poly.norm(v)
            slots.append((name, n))
            shape.append((name, "L"))
        elif isinstance(v, Ptr):
            sc, o = self.scaled(s, v)
            slots.append((name, o))
            inf = self.rinf(s, v.r)
            # a cursor known to be at the end is kept apart
            atend = inf.kind == "input" and inf.size is not None and s.poly.entails_eq(v.o - inf.size)
            # cursors into small locals (arrays of iterators) are kept apart by position
            if inf.kind == "alloca" and o.is_const() and inf.size is not None and inf.size.is_const() and inf.size.k <= 64:
                atend = o.k
            shape.append((name, "P", str(v.r), sc, atend))
        elif isinstance(v, Agg):
            for i, x in enumerate(v.v):
                self.slot(slots, shape, s, name + (i,), x)
        elif isinstance(v, Cat):
            for (o, n, x) in v.v:
                self.slot(slots, shape, s, name + ("c", o, n), x)
        elif isinstance(v, Fn):
            shape.append((name, "F", v.name))
        elif isinstance(v, Tok):
            t = v.n
            shape.append((name, "T"))
        else:
            shape.append((name, v))

    def scaled(self, s, v):
        """(scale, offset / scale): element offsets stay element offsets"""
        o = s.poly.norm(v.o)
        es = self.rinf(s, v.r).es
        if es > 1:
            d = o.divexact(es)
            if d is not None:
                return es, d
        return 1, o

    def symcell(self, s, r):
        """regions whose cells are matched by position, never by slot name"""
        return (isinstance(r, tuple) and r[0] == "keep") or self.rinf(s, r).kind in ("input", "vec")

    def gc(self, s):
        live = set()
        todo = []

        def mark(v):
            if isinstance(v, Ptr):
                if v.r not in live:
                    live.add(v.r)
                    todo.append(v.r)
            elif isinstance(v, Agg):
                for x in v.v:
                    mark(x)
            elif isinstance(v, Cat):
                for x in v.v:
                    mark(x[2])
        for fr in s.frames:
            for v in fr.regs.values():
                mark(v)
        for v in s.ghost.values():
            mark(v)
        if s.exc is not None:
            mark(s.exc)
        for (n, a) in s.facts:
            pass
        for r, i in s.rinfo.items():
            if i.kind in ("ext", "input", "global") or (i.kind in ("heap", "vec") and i.alive):
                if r not in live:
                    live.add(r)
                    todo.append(r)
        while todo:
            r = todo.pop()
            for _, (cs, cv) in s.mem.get(r, {}).items():
                mark(cv)
        for r in list(s.mem):
            if r not in live and not (isinstance(r, tuple) and r and r[0] == "keep"):
                del s.mem[r]
        for r in list(s.rinfo):
            if r not in live and s.rinfo[r].kind == "alloca":
                del s.rinfo[r]

    def rebase(self, s, slots, tag):
        """re-express the state over one symbol per slot"""
        keep = {}
        names = {}
        p = s.poly
        new = []
        used = set()
        for name, e in slots:
            if e.is_const() and False:
                continue
            sym = "%s:%s" % (tag, ".".join(map(str, name)))
            names[name] = sym
            new.append((sym, e))
        np = p.copy()
        newset = set(x[0] for x in new)
        # old symbols (incl. same-named ones from the last visit) are renamed first
        old = {}
        allsyms = set()
        for x, e in np.eq.items():
            allsyms.add(x)
            allsyms.update(e.syms())
        for e in np.ge.values():
            allsyms.update(e.syms())
        for _, e in new:
            allsyms.update(e.syms())
        extra = []
        for r, cells in s.mem.items():
            for o, (cs, cv) in cells.items():
                extra.append(o)
                extra.append(cv)
        for (n, a) in s.facts:
            extra += list(a)
        for i in s.rinfo.values():
            if i.size is not None:
                extra.append(i.size)
        for v in extra:
            for e in lins(v):
                allsyms.update(e.syms())
        ren = {x: "o!" + x for x in allsyms if not x.startswith("$")}
        np = np.rename(ren) if ren else np
        for sym, e in new:
            np.add_eq(Lin.sym(sym) - e.rename(ren), avoid=newset)
        # symbols carried only by symbolic cells / facts survive for matching
        q = np
        lossy_old = set("o!" + x for x in allsyms if x.startswith("?"))

        # Step 1: make the old symbols pivots wherever possible
        for x in list(q.eq):
            if x in q.eq and (x in newset or x.startswith("$")):
                e = q.eq[x]
                d = [y for y, _ in e.t if y.startswith("o!") and abs(e.coef(y)) == 1]
                if d:
                    d.sort()
                    y = d[0]
                    c = e.coef(y)
                    rest = Lin(tuple((z, k) for z, k in e.t if z != y), e.k)
                    num = Lin.sym(x) - rest
                    del q.eq[x]
                    q._substitute(y, num * c)
        t = s.copy()

        def conv(e):
            e = q.norm(e.rename(ren))
            if any(y.startswith("o!") for y in e.syms()):
                return None
            return e

        def convv(v):
            if isinstance(v, Lin):
                return conv(v)
            if isinstance(v, Ptr):
                o = conv(v.o)
                return None if o is None else Ptr(v.r, o)
            if isinstance(v, Agg):
                xs = [convv(x) for x in v.v]
                return None if any(x is None for x in xs) else Agg(xs)
            if isinstance(v, Cat):
                xs = [(o, n, convv(x)) for o, n, x in v.v]
                return None if any(x[2] is None for x in xs) else Cat(xs, v.size)
            return v

        def sub(v, name):
            if isinstance(v, Lin):
                return Lin.sym(names[name])
            if isinstance(v, Ptr):
                return Ptr(v.r, Lin.sym(names[name]) * self.scaled(s, v)[0])
            if isinstance(v, Agg):
                return Agg(sub(x, name + (i,)) for i, x in enumerate(v.v))
            if isinstance(v, Cat):
                return Cat([(o, n, sub(x, name + ("c", o, n))) for o, n, x in v.v], v.size)
            return v
        for d, fr in enumerate(t.frames):
            for k in list(fr.regs):
                fr.regs[k] = sub(fr.regs[k], ("r", d, k))
        cellsyms = []
        mem = {}
        for r, cells in s.mem.items():
            nc = {}
            for o, (cs, cv) in cells.items():
                if o.is_const() and not self.symcell(s, r):
                    nc[o] = (cs, sub(cv, ("m", str(r), o.k, cs)))
                else:
                    no = conv(o)
                    if no is None:
                        if self.rinf(t, r).kind != "input":
                            t.rinfo[r] = self.rinf(t, r).copy(lossy=True)
                        continue
                    nv = convv(cv)
                    if nv is None and isinstance(cv, Lin):
                        # keep the value as a symbol of its own
                        sy = "%s~c%d" % (tag, len(cellsyms))
                        while sy in newset:
                            sy += "'"
                        cellsyms.append(sy)
                        newset.add(sy)
                        q.add_eq(Lin.sym(sy) - cv.rename(ren), avoid=newset)
                        for x in list(q.eq):
                            if x == sy:
                                e = q.eq[x]
                                dd = sorted(y for y, _ in e.t if y.startswith("o!") and abs(e.coef(y)) == 1)
                                if dd:
                                    y = dd[0]
                                    c = e.coef(y)
                                    rest = Lin(tuple((z, k) for z, k in e.t if z != y), e.k)
                                    del q.eq[x]
                                    q._substitute(y, (Lin.sym(x) - rest) * c)
                        nv = Lin.sym(sy)
                    if nv is None:
                        continue
                    nc[no] = (cs, nv)
            mem[r] = nc
        t.mem = mem
        facts = {}
        for (n, a), r in s.facts.items():
            na = [convv(x) for x in a]
            if any(x is None for x in na):
                continue
            nr = convv(r) if isinstance(r, (Lin, Ptr)) else r
            if nr is None:
                continue
            facts[(n, tuple(na))] = nr
        t.facts = facts
        for g, v in s.ghost.items():
            t.ghost[g] = sub(v, ("g", g)) if isinstance(v, (Lin, Ptr)) else v
        for r, i in list(t.rinfo.items()):
            if i.size is not None and ("z", str(r)) in names:
                t.rinfo[r] = i.copy(size=Lin.sym(names[("z", str(r))]))
        t.poly = q.project(lambda y: y.startswith("o!"))
        # renormalise offsets / fact arguments
        for r in list(t.mem):
            t.mem[r] = {t.poly.norm(o): c for o, c in t.mem[r].items()}
        return t

    def subsumed(self, t, o):
        return self.cellmatch(t, o)

    def cellmatch(self, t, o):
        # t (new) subsumed by o (old): o's cells/facts must all hold in t
        tp = t.poly
        # relate symbol-valued cells of o to those of t
        extra = []
        for r, cells in o.mem.items():
            for co, (cs, cv) in cells.items():
                m = self.find_cell(t, r, co, cs)
                if m is None:
                    return False
                extra.append((cv, m))
        for (n, a), v in o.facts.items():
            r = self.get_fact(t, n, a)
            if r is None:
                return False
            if isinstance(v, (Lin, Ptr)):
                extra.append((v, r))
            elif r != v:
                return False
        for r, i in t.rinfo.items():
            oi = o.rinfo.get(r)
            if oi is not None and i.lossy and not oi.lossy:
                return False
        # o.poly must contain t.poly with cell symbols of o mapped to t's values
        m = {}
        p = tp.copy()
        pairs = []
        for ov, tv in extra:
            if isinstance(ov, Ptr) and isinstance(tv, Ptr) and ov.r == tv.r:
                ov, tv = ov.o, tv.o
            if isinstance(ov, Lin) and isinstance(tv, Lin):
                if len(ov.t) == 1 and ov.t[0][1] == 1 and ov.k == 0 and "~c" in ov.t[0][0]:
                    sy = ov.t[0][0]
                    if sy in m:
                        pairs.append((Lin.sym("t!" + sy), tv))
                    else:
                        m[sy] = "t!" + sy
                        p.add_eq(Lin.sym("t!" + sy) - tv)
                else:
                    pairs.append((ov, tv))
            elif isinstance(ov, Agg) and isinstance(tv, Agg):
                for x, y in zip(ov.v, tv.v):
                    if isinstance(x, Lin) and isinstance(y, Lin):
                        pairs.append((x, y))
                    elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r:
                        pairs.append((x.o, y.o))
                    elif x != y:
                        return False
            elif ov != tv:
                return False
        for a, b in pairs:
            if not p.entails_eq(a.rename(m) - b):
                return False
        for sy, e in o.poly.eq.items():
            if not p.entails_eq((Lin.sym(sy) - e).rename(m)):
                return False
        for e in o.poly.ge.values():
            if not p.entails_ge(e.rename(m)):
                return False
        return True

    def find_cell(self, t, r, off, size):
        cells = t.mem.get(r, {})
        c = cells.get(off)
        if c and c[0] == size:
            return c[1]
        for co, (cs, cv) in cells.items():
            if cs == size and t.poly.entails_eq(co - off):
                return cv
        return None

    def anchors(self, s, e, slotsyms):
        """[(sym or None, const)] with e == sym + const"""
        n = s.poly.norm(e)
        out = []
        if n.is_const():
            out.append((None, n.k))
        for y in slotsyms:
            d = n - s.poly.norm(Lin.sym(y))
            if d.is_const() and isinstance(d.k, int):
                out.append((y, d.k))
        return out

    def merge(self, o, t, widen):
        """join of two states over the same slot symbols"""
        j = o.copy()
        j.lossy_path = o.lossy_path or t.lossy_path
        syms = set()
        for st in (o, t):
            for x, e in st.poly.eq.items():
                syms.add(x)
                syms.update(e.syms())
            for e in st.poly.ge.values():
                syms.update(e.syms())
        osl = sorted(y for y in syms if ":" in y and "~c" not in y or y.startswith("$"))
        po, pt = o.poly.copy(), t.poly.copy()
        ren_o = {y: "o!" + y for y in syms if "~c" in y}
        ren_t = {y: "t!" + y for y in syms if "~c" in y}
        po = po.rename(ren_o) if ren_o else po
        pt = pt.rename(ren_t) if ren_t else pt
        cnt = [0]
        tag = None
        for y in syms:
            if ":" in y and "~" not in y and not y.startswith("$"):
                tag = y.split(":")[0]
        ancho = {}
        ancht = {}

        def anc(st, e, cache):
            if e not in cache:
                cache[e] = self.anchors(st, e, osl)
            return cache[e]

        def common(eo, et):
            a = anc(o, eo, ancho)
            b = set(anc(t, et, ancht))
            for x in a:
                if x in b:
                    return Lin.c(x[1]) if x[0] is None else Lin.sym(x[0]) + x[1]
            if o.poly.norm(eo) == t.poly.norm(et):
                return o.poly.norm(eo)
            return None

        def join_val(vo, vt):
            if isinstance(vo, Lin) and isinstance(vt, Lin):
                c = common(vo, vt) if not (set(vo.syms()) & set(ren_o)) and not (set(vt.syms()) & set(ren_t)) else None
                if c is not None:
                    return c
                cnt[0] += 1
                y = "%s~c%d" % (tag or "h", cnt[0])
                po.add_eq(Lin.sym(y) - vo.rename(ren_o))
                pt.add_eq(Lin.sym(y) - vt.rename(ren_t))
                return Lin.sym(y)
            if isinstance(vo, Ptr) and isinstance(vt, Ptr) and vo.r == vt.r:
                x = join_val(vo.o, vt.o)
                return None if x is None else Ptr(vo.r, x)
            if isinstance(vo, Agg) and isinstance(vt, Agg) and len(vo.v) == len(vt.v):
                xs = [join_val(a, b) for a, b in zip(vo.v, vt.v)]
                return None if any(x is None for x in xs) else Agg(xs)
            if type(vo) is type(vt) and vo == vt:
                return vo
            if isinstance(vo, Tok) and isinstance(vt, Tok):
                self.n += 1
                return Tok("?j%d" % self.n)
            return None
        mem = {}
        for r, cells in o.mem.items():
            nc = {}
            tc = t.mem.get(r, {})
            usedt = set()
            sc = self.symcell(o, r)
            for co, (cs, cv) in cells.items():
                hits = []
                if co.is_const() and not sc:
                    if co in tc and tc[co][0] == cs:
                        hits = [(co, co)]
                else:
                    for to, (ts, tv) in tc.items():
                        if ts != cs:
                            continue
                        c = common(co, to)
                        if c is not None:
                            hits.append((c, to))
                got = False
                for c, to in hits:
                    usedt.add(to)
                    tv = tc[to][1]
                    if r in self.mon.const_only:
                        # bytes: only agreed constants survive a join
                        a, b = (o.poly.norm(cv), t.poly.norm(tv)) if isinstance(cv, Lin) and isinstance(tv, Lin) else (None, None)
                        nv = a if a is not None and a == b and a.is_const() else None
                    elif co.is_const() and not sc and isinstance(cv, Lin) and isinstance(tv, Lin) and cv == tv and not (set(cv.syms()) & set(ren_o)):
                        nv = cv
                    else:
                        nv = join_val(cv, tv)
                    if nv is not None:
                        nc[c] = (cs, nv)
                        got = True
                if not got and self.rinf(o, r).kind != "input":
                    j.rinfo[r] = self.rinf(j, r).copy(lossy=True)
            if len(usedt) < len(tc) and self.rinf(o, r).kind != "input":
                j.rinfo[r] = self.rinf(j, r).copy(lossy=True)
            mem[r] = nc
        for r in t.mem:
            if r not in o.mem and t.mem[r] and self.rinf(t, r).kind != "input":
                j.rinfo[r] = self.rinf(t, r).copy(lossy=True)
        for r, i in t.rinfo.items():
            if r in j.rinfo and i.lossy and not j.rinfo[r].lossy:
                j.rinfo[r] = j.rinfo[r].copy(lossy=True)
        j.mem = mem
        facts = {}
        for (n, a), v in o.facts.items():
            for (n2, a2), v2 in t.facts.items():
                if n2 != n or len(a2) != len(a):
                    continue
                na = []
                for x, y in zip(a, a2):
                    if isinstance(x, Lin) and isinstance(y, Lin):
                        c = common(x, y) if not (set(x.syms()) & set(ren_o)) and not (set(y.syms()) & set(ren_t)) else None
                    elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.r == y.r:
                        c = common(x.o, y.o) if not (set(x.o.syms()) & set(ren_o)) and not (set(y.o.syms()) & set(ren_t)) else None
                        c = None if c is None else Ptr(x.r, c)
                    else:
                        c = x if x == y and not isinstance(x, (Lin, Ptr)) else None
                    if c is None:
                        break
                    na.append(c)
                if len(na) != len(a):
                    continue
                if isinstance(v, (Lin, Ptr)):
                    nv = join_val(v, v2)
                    if nv is None:
                        continue
                elif v == v2:
                    nv = v
                else:
                    continue
                facts[(n, tuple(na))] = nv
        j.facts = facts
        if ren_o or cnt[0]:
            po = po.project(lambda y: y.startswith("o!"))
            pt = pt.project(lambda y: y.startswith("t!"))
        # widening only between polyhedra of equal dimension (equalities can
        # only be lost finitely often)
        j.poly = po.join(pt)
        if widen and len(j.poly.eq) >= len(po.eq):
            j.poly = po.widen(pt, closure=widen < 16)
        for r in list(j.mem):
            j.mem[r] = {j.poly.norm(x): c for x, c in j.mem[r].items()}
        j.trace = t.trace
        return j

    # ------------------------------------------------------------ execution
    def goto(self, s, b):
        self.enter(s, b)
        s.top.regs["__ent"] = 1
        return s

    def setr(self, s, ins, v):
        s.top.regs[ins["id"]] = v
        s.top.i += 1
        return [s]

    def exec(self, s, ins):
        op = ins["op"]
        h = getattr(self, "op_" + op, None)
        if h is None:
            # unknown operation: unknown result
            self.havoc["op:" + op] = self.havoc.get("op:" + op, 0) + 1
            return self.setr(s, ins, self.fresh_ty(s, ins["ty"], ins.get("sz", 8), lossy=True) if ins["ty"] != "void" else None)
        return h(s, ins)

    def op_alloca(self, s, ins):
        f = s.top
        r = ("A", len(s.frames), f.fn.name, ins["id"])
        s.rinfo[r] = RInfo(Lin.c(ins["asz"]), "alloca", tag=ins.get("name"), layout=ins.get("lay"))
        s.mem.pop(r, None)
        return self.setr(s, ins, Ptr(r))

    def op_load(self, s, ins):
        p = self.val(s, ins["ops"][0])
        h = self.mon.on_load
        if h is not None and isinstance(p, Ptr):
            r = h(self, s, ins, p, ins["sz"])
            if r is not None:
                out = []
                for t, v in r:
                    out += self.setr(t, ins, v)
                return out
        v = self.load(s, ins, p, ins["sz"], ins["ty"])
        return self.setr(s, ins, v)

    def op_store(self, s, ins):
        v = self.val(s, ins["ops"][0])
        p = self.val(s, ins["ops"][1])
        self.store(s, ins, p, ins["ssz"], v)
        if self.mon.on_store is not None and isinstance(p, Ptr):
            self.mon.on_store(self, s, ins, p, ins["ssz"], v)
        s.top.i += 1
        return [s]

    def op_getelementptr(self, s, ins):
        b = self.val(s, ins["base"])
        off = Lin.c(ins["off"])
        for o, sc in ins["idx"]:
            v = self.val(s, o)
            if not isinstance(v, Lin):
                if isinstance(v, Ptr) and sc == 1 and isinstance(b, Lin):
                    # ptrtoint arithmetic
                    b, v = v, b
                else:
                    v = self.fresh("gep", lossy=True)
            off = off + v * sc
        if isinstance(b, Ptr):
            return self.setr(s, ins, Ptr(b.r, s.poly.norm(b.o + off)))
        if isinstance(b, Lin):
            return self.setr(s, ins, b + off)
        return self.setr(s, ins, b)

    def passthru(self, s, ins):
        return self.setr(s, ins, self.val(s, ins["ops"][0]))
    op_bitcast = op_ptrtoint = op_inttoptr = op_freeze = op_addrspacecast = passthru

    def arith(self, s, ins):
        op = ins["op"]
        a, b = (self.val(s, o) for o in ins["ops"])
        w = ins.get("w", 64)
        r = None
        h = getattr(self.mon, "bitop", None)
        if h is not None and (isinstance(a, Tok) or isinstance(b, Tok)):
            r = h(self, s, ins, op, a, b)
            if isinstance(r, list):
                return [u for t, v in r for u in self.setr(t, ins, v)]
            if r is not None:
                return self.setr(s, ins, r)
        if op == "add":
            if isinstance(a, Ptr) and isinstance(b, Lin):
                r = Ptr(a.r, a.o + b)
            elif isinstance(b, Ptr) and isinstance(a, Lin):
                r = Ptr(b.r, b.o + a)
            elif isinstance(a, Lin) and isinstance(b, Lin):
                r = a + b
        elif op == "sub":
            if isinstance(a, Ptr) and isinstance(b, Ptr):
                if a.r == b.r:
                    r = a.o - b.o
            elif isinstance(a, Ptr) and isinstance(b, Lin):
                r = Ptr(a.r, a.o - b)
            elif isinstance(a, Lin) and isinstance(b, Lin):
                r = a - b
        elif op == "mul":
            if isinstance(a, Lin) and isinstance(b, Lin):
                a, b = s.poly.norm(a), s.poly.norm(b)
                if b.is_const():
                    r = a * b.k
                elif a.is_const():
                    r = b * a.k
        if isinstance(r, Lin):
            r = s.poly.norm(r)
            if w <= 16 and self.wraps_once(s, r, w):
                return self.wrap_once(s, ins, r, w)
            h = getattr(self.mon, "overflow", None)
            if h is not None:
                h(self, s, ins, r, w)
            if w <= 16 and not s.poly.bounds(r, -(1 << (w - 1)), (1 << (w - 1)) - 1):
                if r.is_const():
                    k = int(r.k) & ((1 << w) - 1)
                    r = Lin.c(k - (1 << w) if k >> (w - 1) else k)
                else:
                    r = self.fresh("ar", w=w, s=s, lossy=True)
        if r is None:
            if isinstance(a, Tok) and a == UNDEF or isinstance(b, Tok) and b == UNDEF:
                r = UNDEF
            else:
                r = self.fresh("ar", w=w, s=s, lossy=True)
        return self.setr(s, ins, r)
    op_add = op_sub = op_mul = arith

    def wraps_once(self, s, r, w):
        n = 1 << w
        return not s.poly.bounds(r, -n // 2, n // 2 - 1) and s.poly.bounds(r, -n // 2 - n, n // 2 - 1 + n)

    def wrap_once(self, s, ins, r, w):
        """a narrow result that is off by at most one modulus: exact, by cases"""
        n, out = 1 << w, []
        for t, big in self.split_ge(s, r - n // 2):
            if big:
                out += self.setr(t, ins, t.poly.norm(r) - n)
                continue
            for u, ok in self.split_ge(t, r + n // 2):
                out += self.setr(u, ins, u.poly.norm(r) + (0 if ok else n))
        return out

    def divlike(self, s, a, k, want):
        """floor quotient / remainder of a >= 0 by constant k > 0"""
        a = s.poly.norm(a)
        if a.is_const():
            return Lin.c(int(a.k) // k) if want == "q" else Lin.c(int(a.k) % k)
        d = a.divexact(k)
        if d is not None and all(isinstance(c, int) for _, c in d.t):
            return d if want == "q" else ZERO
        q = self.get_fact(s, "div%d" % k, (a,))
        if q is None:
            q = self.fresh("q")
            s.poly.add_ge(a - q * k)
            s.poly.add_ge(q * k + (k - 1) - a)
            s.poly.add_ge(q)
            self.set_fact(s, "div%d" % k, (a,), q)
        return q if want == "q" else a - q * k

    def division(self, s, ins):
        op = ins["op"]
        a, b = (self.val(s, o) for o in ins["ops"])
        w = ins.get("w", 64)
        if isinstance(a, Lin) and isinstance(b, Lin):
            b = s.poly.norm(b)
            a = s.poly.norm(a)
            if b.is_const() and b.k > 0:
                k = int(b.k)
                want = "q" if op in ("udiv", "sdiv") else "r"
                d = a.divexact(k)
                if d is not None and all(isinstance(c, int) for _, c in d.t) and op in ("sdiv", "udiv"):
                    return self.setr(s, ins, d)
                out = []
                for t, nonneg in self.split_ge(s, a):
                    if nonneg:
                        out += self.setr(t, ins, self.divlike(t, a, k, want))
                    else:
                        if a.is_const() and op in ("sdiv", "srem"):
                            q = -((-int(a.k)) // k)
                            v = Lin.c(q if want == "q" else int(a.k) - q * k)
                        elif op == "srem":
                            v = self.fresh("rem", s=t, lo=-(k - 1), hi=0)
                        elif op == "sdiv":
                            v = -self.divlike(t, -a, k, "q")
                        else:
                            v = self.fresh("dv", w=w, s=t, lossy=True)
                        out += self.setr(t, ins, v)
                return out
        return self.setr(s, ins, self.fresh("dv", w=w, s=s, lossy=True))
    op_udiv = op_sdiv = op_urem = op_srem = division

    def bits(self, s, ins):
        op = ins["op"]
        a, b = (self.val(s, o) for o in ins["ops"])
        w = ins.get("w", 64)
        h = getattr(self.mon, "bitop", None)
        if h is not None:
            r = h(self, s, ins, op, a, b)
            if isinstance(r, list):
                return [u for t, v in r for u in self.setr(t, ins, v)]
            if r is not None:
                return self.setr(s, ins, r)
        if isinstance(a, Cat) and isinstance(b, Lin) and op == "lshr":
            n = s.poly.norm(b)
            if n.is_const():
                sh = int(n.k) // 8
                rest = [(o - sh, z, v) for o, z, v in a.v if o >= sh]
                if len(rest) == 1 and rest[0][0] == 0:
                    v = rest[0][2]
                    if isinstance(v, Lin):
                        out = []
                        for t, nn in self.split_ge(s, v):
                            out += self.setr(t, ins, v if nn else v + (1 << (8 * rest[0][1])))
                        return out
                    return self.setr(s, ins, v)
        if isinstance(a, Lin) and isinstance(b, Lin):
            a, b = s.poly.norm(a), s.poly.norm(b)
            if a.is_const() and b.is_const():
                x, y = int(a.k), int(b.k)
                M = (1 << w) - 1
                if op == "and":
                    r = x & y
                elif op == "or":
                    r = x | y
                elif op == "xor":
                    r = x ^ y
                elif op == "shl":
                    r = (x << y) if 0 <= y < w else 0
                elif op == "lshr":
                    r = (x & M) >> y if 0 <= y < w else 0
                else:
                    r = x >> y if 0 <= y < w else 0
                if w == 1:
                    r &= 1
                else:
                    r &= M
                    if r >> (w - 1):
                        r -= 1 << w
                return self.setr(s, ins, Lin.c(r))
            if w == 1:
                # boolean with an unknown operand: split it
                out = []
                for v in (a, b):
                    if not v.is_const():
                        for t, z in self.split_eq(s, v):
                            if not z:
                                self.assume_eq(t, v - 1)
                            out.append(t)
                        return out      # re-executed with the operand decided
            if op in ("and", "or", "xor") and a.is_const():
                a, b = b, a
            if b.is_const():
                k = int(b.k)
                if op == "shl" and 0 <= k < w:
                    return self.setr(s, ins, a * (1 << k))
                if op in ("lshr", "ashr") and 0 <= k < w and s.poly.entails_ge(a):
                    return self.setr(s, ins, self.divlike(s, a, 1 << k, "q"))
                if op == "and" and k >= 0 and (k & (k + 1)) == 0 and s.poly.entails_ge(a):
                    return self.setr(s, ins, self.divlike(s, a, k + 1, "r"))
                if op == "and" and k < 0 and (-k & (-k - 1)) == 0 and s.poly.entails_ge(a):
                    return self.setr(s, ins, a - self.divlike(s, a, -k, "r"))
                if op == "and" and k >= 0:
                    r = self.get_fact(s, "and", (a, b))
                    if r is None:
                        r = self.fresh("and", s=s, lo=0, hi=k)
                        self.set_fact(s, "and", (a, b), r)
                    return self.setr(s, ins, r)
                if op == "or" and k == 0 or op == "xor" and k == 0:
                    return self.setr(s, ins, a)
                if op == "xor" and k == -1:
                    return self.setr(s, ins, -a - 1)
            r = self.get_fact(s, op, (a, b))
            if r is None:
                r = self.fresh(op, w=w, s=s, lossy=True)
                self.set_fact(s, op, (a, b), r)
            return self.setr(s, ins, r)
        if op == "or" and isinstance(a, (Lin,)) and isinstance(b, Lin):
            pass
        return self.setr(s, ins, self.fresh("bit", w=w, s=s, lossy=True))
    op_and = op_or = op_xor = op_shl = op_lshr = op_ashr = bits

    def op_zext(self, s, ins):
        v = self.val(s, ins["ops"][0])
        w0 = int(ins["opty"][1:]) if ins["opty"].startswith("i") else 64
        if isinstance(v, Cat):
            return self.setr(s, ins, v)
        if not isinstance(v, Lin):
            return self.setr(s, ins, v)
        if w0 == 1:
            return self.setr(s, ins, v)
        out = []
        for t, nn in self.split_ge(s, v):
            out += self.setr(t, ins, v if nn else v + (1 << w0))
        return out

    def op_sext(self, s, ins):
        v = self.val(s, ins["ops"][0])
        if isinstance(v, Lin) and ins["opty"] == "i1":
            v = -v
        return self.setr(s, ins, v)

    def op_trunc(self, s, ins):
        v = self.val(s, ins["ops"][0])
        w = ins["w"]
        if isinstance(v, Cat):
            for o, n, x in v.v:
                if o == 0 and n * 8 == w:
                    return self.setr(s, ins, x)
                if o == 0 and w == 1 and n == 1:
                    v = x
                    break
            else:
                return self.setr(s, ins, self.fresh("tr", w=w, s=s, lossy=True))
        if not isinstance(v, Lin):
            if isinstance(v, Tok):
                return self.setr(s, ins, v)
            return self.setr(s, ins, self.fresh("tr", w=w, s=s, lossy=True))
        v = s.poly.norm(v)
        if w == 1:
            if s.poly.bounds(v, 0, 1):
                return self.setr(s, ins, v)
            return self.setr(s, ins, self.fresh("tr", s=s, lo=0, hi=1, lossy=True))
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if v.is_const():
            k = int(v.k) & ((1 << w) - 1)
            return self.setr(s, ins, Lin.c(k - (1 << w) if k >> (w - 1) else k))
        if s.poly.bounds(v, lo, hi):
            return self.setr(s, ins, v)
        if s.poly.bounds(v, 0, 2 * hi + 1):
            out = []
            for t, big in self.split_ge(s, v - hi - 1):
                out += self.setr(t, ins, v - (1 << w) if big else v)
            return out
        if w <= 16 and self.wraps_once(s, v, w):
            return self.wrap_once(s, ins, v, w)
        h = getattr(self.mon, "overflow", None)
        if h is not None:
            h(self, s, ins, v, w)
            if s.poly.bounds(v, lo, hi):
                return self.setr(s, ins, v)
        if w >= 32:
            # documented assumption: 32-bit quantities do not wrap
            if self.mon.cut32:
                self.need(s, None, "cut", "a 64-bit quantity that does not fit 32 bits is cut (%s)" % self.show(s, v), ins, (v,))
            return self.setr(s, ins, v)
        if w >= 8 and self.mon.cut32 and v.t and all(isinstance(q, str) and q.startswith("$N") for q, _ in v.t):
            # the size of the input, cut to fewer bits than it needs
            self.need(s, None, "cut", "a size that does not fit %d bits is cut (%s)" % (w, self.show(s, v)), ins, (v,))
        r = self.get_fact(s, "trunc%d" % w, (v,))
        if r is None:
            r = self.fresh("tr", w=w, s=s, lossy=True)
            self.set_fact(s, "trunc%d" % w, (v,), r)
        return self.setr(s, ins, r)

    def op_icmp(self, s, ins):
        a, b = (self.val(s, o) for o in ins["ops"])
        return [self.setr(t, ins, Lin.c(1 if r else 0))[0] for t, r in self.cmp(s, ins, ins["pred"], a, b)]

    def cmp(self, s, ins, pred, a, b):
        h = getattr(self.mon, "bitcmp", None)
        if h is not None:
            r = h(self, s, ins, pred, a, b)
            if r is not None:
                return r
        if a == UNDEF or b == UNDEF:
            self.mon_undef(s, ins)
            return self.split_fact(s, "undefcmp%d" % ins["id"], ())
        if pred in ("eq", "ne"):
            rs = self.split_same(s, a, b)
            return [(t, r if pred == "eq" else not r) for t, r in rs]
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.r == b.r:
                a, b = a.o, b.o
                pred = "s" + pred[1:] if pred[0] == "u" else pred
            else:
                return self.split_fact(s, "ptr" + pred, (a, b))
        if isinstance(a, Lin) and isinstance(b, Lin):
            if pred[0] == "u":
                out = []
                for t, an in self.split_ge(s, a):
                    for u, bn in self.split_ge(t, b):
                        if an == bn:
                            out += self.scmp(u, pred[1:], a, b)
                        else:
                            # negative means huge
                            lt = an and not bn
                            out.append((u, lt if pred[1] == "l" else not lt))
                return out
            return self.scmp(s, pred[1:], a, b)
        return self.split_fact(s, "cmp" + pred, (a, b))

    def mon_undef(self, s, ins):
        self.fail(s, "uninit", "value read before it is written decides a branch", ins)

    def scmp(self, s, p, a, b):
        if p == "lt":
            return self.split_ge(s, b - a - 1)
        if p == "le":
            return self.split_ge(s, b - a)
        if p == "gt":
            return self.split_ge(s, a - b - 1)
        return self.split_ge(s, a - b)

    def op_fcmp(self, s, ins):
        a, b = (self.val(s, o) for o in ins["ops"])
        h = getattr(self.mon, "fpcmp", None)
        r = h(self, s, ins, a, b) if h is not None else None
        if r is not None:
            return [self.setr(t, ins, Lin.c(1 if v else 0))[0] for t, v in r]
        return [self.setr(t, ins, Lin.c(1 if r else 0))[0] for t, r in self.split_fact(s, "fcmp" + ins["pred"], (a, b))]

    def fpop(self, s, ins):
        a = tuple(self.val(s, o) for o in ins["ops"])
        h = getattr(self.mon, "fp", None)
        if h is not None:
            r = h(self, s, ins, a)
            if isinstance(r, list):
                return [u for t, v in r for u in self.setr(t, ins, v)]
            if r is not None:
                return self.setr(s, ins, r)
        return self.setr(s, ins, Tok(("fp", ins["op"]) + a))
    op_fadd = op_fsub = op_fmul = op_fdiv = op_fneg = op_sitofp = op_uitofp = op_fpext = op_fptrunc = op_frem = fpop

    def op_fptosi(self, s, ins):
        return self.setr(s, ins, self.fresh("fp2i", w=ins.get("w"), s=s, lossy=True))
    op_fptoui = op_fptosi

    def op_select(self, s, ins):
        c = self.val(s, ins["ops"][0])
        out = []
        for t, b in self.truth(s, ins, c):
            out += self.setr(t, ins, self.val(t, ins["ops"][1 if b else 2]))
        return out

    def truth(self, s, ins, c):
        if isinstance(c, Lin):
            return [(t, not z) for t, z in self.split_eq(s, c)]
        if c == UNDEF:
            self.mon_undef(s, ins)
        return self.split_fact(s, "truth%d" % ins["id"], (c,))

    def op_br(self, s, ins):
        if "c" not in ins:
            return [self.goto(s, ins["succ"][0])]
        c = self.val(s, ins["c"])
        return [self.goto(t, ins["succ"][0 if b else 1]) for t, b in self.truth(s, ins, c)]

    def op_switch(self, s, ins):
        v = self.val(s, ins["c"])
        out = []
        if not isinstance(v, Lin):
            if v == UNDEF:
                self.mon_undef(s, ins)
                for c, b in ins["cases"]:
                    out.append(self.goto(s.copy(), b))
                out.append(self.goto(s, ins["def"]))
                return out
            rest = [s]
            for c, b in ins["cases"]:
                nr = []
                for t in rest:
                    for u, eq in self.cmp(t, ins, "eq", v, Lin.c(c)):
                        if eq:
                            out.append(self.goto(u, b))
                        else:
                            nr.append(u)
                rest = nr
            for t in rest:
                out.append(self.goto(t, ins["def"]))
            return out
        rest = [s]
        for c, b in ins["cases"]:
            nr = []
            for t in rest:
                for u, eq in self.split_eq(t, v - c):
                    if eq:
                        out.append(self.goto(u, b))
                    else:
                        nr.append(u)
            rest = nr
        for t in rest:
            out.append(self.goto(t, ins["def"]))
        return out

    def op_extractvalue(self, s, ins):
        v = self.val(s, ins["ops"][0])
        for i in ins["ix"]:
            if isinstance(v, Agg) and i < len(v.v):
                v = v.v[i]
            else:
                v = self.fresh_ty(s, ins["ty"], ins.get("sz", 8), lossy=True)
                break
        return self.setr(s, ins, v)

    def op_insertvalue(self, s, ins):
        v = self.val(s, ins["ops"][0])
        x = self.val(s, ins["ops"][1])

        def put(v, ix):
            if not ix:
                return x
            n = ix[0] + 1
            lst = list(v.v) if isinstance(v, Agg) else []
            while len(lst) < n:
                lst.append(UNDEF)
            lst[ix[0]] = put(lst[ix[0]], ix[1:])
            return Agg(lst)
        return self.setr(s, ins, put(v, ins["ix"]))

    def op_unreachable(self, s, ins):
        return []

    def op_fence(self, s, ins):
        s.top.i += 1
        return [s]

    def op_ret(self, s, ins):
        v = self.val(s, ins["ops"][0]) if ins.get("ops") else None
        return self.do_return(s, v)

    def do_return(self, s, v):
        f = s.frames.pop()
        if not s.frames:
            s.frames.append(f)
            self.paths_done += 1
            self.mon.exit(self, s, "return", v)
            return []
        # allocas of the frame die
        for r in list(s.rinfo):
            if isinstance(r, tuple) and r[0] == "A" and r[1] == len(s.frames) + 1:
                s.mem.pop(r, None)
                s.rinfo[r] = s.rinfo[r].copy(alive=False)
        ci = s.top.fn.blocks[s.top.b][s.top.i]
        return self.after_call(s, ci, v)

    def after_call(self, s, ci, v):
        if v is not None and ci["ty"] != "void":
            s.top.regs[ci["id"]] = v
        elif ci["ty"] != "void":
            s.top.regs[ci["id"]] = self.fresh_ty(s, ci["ty"], ci.get("sz", 8), lossy=True)
        if ci["op"] == "invoke":
            return [self.goto(s, ci["norm"])]
        s.top.i += 1
        return [s]

    def unwind(self, s, exc):
        """propagate an exception out of the current call instruction"""
        s.exc = exc
        while True:
            f = s.top
            ci = f.fn.blocks[f.b][f.i]
            if ci["op"] == "invoke":
                return [self.goto(s, ci["unw"])]
            if len(s.frames) == 1:
                self.paths_done += 1
                self.mon.exit(self, s, "throw", exc)
                return []
            s.frames.pop()

    def op_landingpad(self, s, ins):
        sel = self.fresh("sel")
        s.ev("landingpad")
        return self.setr(s, ins, Agg((s.exc if s.exc is not None else Tok("exc"), sel)))

    def op_resume(self, s, ins):
        v = self.val(s, ins["ops"][0])
        exc = v.v[0] if isinstance(v, Agg) else Tok("exc")
        if len(s.frames) == 1:
            self.paths_done += 1
            self.mon.exit(self, s, "throw", exc)
            return []
        s.frames.pop()
        return self.unwind(s, exc)

    def atomic(self, s, ins):
        p = self.val(s, ins["ops"][0])
        args = [self.val(s, o) for o in ins["ops"]]
        r = self.mon.call(self, s, ins, "@" + ins["op"] + (":" + ins["rmw"] if "rmw" in ins else ""), "", args)
        if r is not None:
            out = []
            for t, v in r:
                out += self.setr(t, ins, v)
            return out
        if ins["op"] == "atomicrmw" and isinstance(p, Ptr):
            old = self.load(s, ins, p, ins["sz"], ins["ty"])
            new = None
            if ins["rmw"] == "add" and isinstance(old, Lin) and isinstance(args[1], Lin):
                new = old + args[1]
            elif ins["rmw"] == "sub" and isinstance(old, Lin) and isinstance(args[1], Lin):
                new = old - args[1]
            elif ins["rmw"] == "xchg":
                new = args[1]
            else:
                new = self.fresh("rmw", s=s, lossy=True)
            self.store(s, ins, p, ins["sz"], new)
            return self.setr(s, ins, old)
        if ins["op"] == "cmpxchg" and isinstance(p, Ptr):
            old = self.load(s, ins, p, 8, "i64")
            out = []
            for t, eq in self.split_same(s, old, args[1]):
                if eq:
                    self.store(t, ins, p, 8, args[2])
                out += self.setr(t, ins, Agg((old, Lin.c(1 if eq else 0))))
            return out
        return self.setr(s, ins, self.fresh_ty(s, ins["ty"], ins.get("sz", 8), lossy=True))
    op_atomicrmw = op_cmpxchg = atomic

    # ------------------------------------------------------------ calls
    def op_call(self, s, ins):
        if "callee" in ins:
            name = ins["callee"]
        else:
            v = self.val(s, ins["fn"])
            if isinstance(v, Fn):
                name = v.name
            elif isinstance(v, Lin) and s.poly.norm(v) == ZERO:
                self.fail(s, "null-call", "call through a null function pointer", ins)
            else:
                name = "<indirect>"
        args = [self.val(s, o) for o in ins["args"]]
        f = self.m.funcs.get(name)
        dem = f.dem if f else name
        if name.startswith("llvm."):
            r = self.intrinsic(s, ins, name, args)
            if r is not None:
                return r
        self.callsites.add((s.top.fn.name, s.top.b, s.top.i, name))
        if name == "<indirect>":
            r = self.mon.call(self, s, ins, name, name, [self.val(s, ins["fn"])] + args)
        else:
            r = self.mon.call(self, s, ins, name, dem, args)
        if r is None:
            for mdl in self.models:
                r = mdl(self, s, ins, name, dem, args)
                if r is not None:
                    break
        if r is not None:
            out = []
            for t, v in r:
                if v is THROW or (isinstance(v, Tok) and v == THROW):
                    out += self.unwind(t, t.exc if t.exc is not None else Tok("exc"))
                elif v == "entered":
                    out.append(t)
                elif v == "stop":
                    continue
                else:
                    out += self.after_call(t, ins, v)
            return out
        if f is not None and not f.decl:
            return self.push(s, f, args)
        return self.unknown_call(s, ins, name, dem, args)
    op_invoke = op_call

    def push(self, s, f, args):
        if len(s.frames) > 40:
            raise AnalysisError("call depth limit in %s" % f.dem)
        f.prep()
        fr = Frame(f, len(s.frames))
        for a, v in zip(f.args, args):
            if "byval" in a and isinstance(v, Ptr):
                r = ("A", len(s.frames) + 1, f.name, "byval%d" % a["id"])
                s.rinfo[r] = RInfo(Lin.c(a["byval"]), "alloca", tag=a["name"])
                self.memcpy(s, None, Ptr(r), v, Lin.c(a["byval"]))
                v = Ptr(r)
            fr.regs[a["id"]] = v
        s.frames.append(fr)
        self.visited.add((f.name, 0))
        return [s]

    def unknown_call(self, s, ins, name, dem, args):
        self.havoc[dem] = self.havoc.get(dem, 0) + 1
        for a in args:
            if isinstance(a, Ptr) and not (isinstance(a.r, str) and a.r.startswith("g:")):
                if self.rinf(s, a.r).kind != "input":
                    self.havoc_region(s, a.r)
        if ins.get("noreturn"):
            return []
        return self.after_call(s, ins, self.fresh_ty(s, ins["ty"], ins.get("sz", 8), lossy=True) if ins["ty"] != "void" else None)

    def intrinsic(self, s, ins, name, args):
        n = name.split(".")
        b = n[1]
        if b in ("dbg", "assume", "experimental", "donothing", "prefetch", "invariant"):
            s.top.i += 1
            return [s]
        if b == "lifetime":
            p = args[1]
            if isinstance(p, Ptr):
                s.mem.pop(p.r, None)
                inf = self.rinf(s, p.r)
                s.rinfo[p.r] = inf.copy(alive=(n[2] == "start"), lossy=False)
                h = getattr(self.mon, "lifetime", None)
                if h:
                    h(self, s, ins, p.r, n[2] == "start")
            s.top.i += 1
            return [s]
        if b in ("memcpy", "memmove"):
            h = getattr(self.mon, "on_memcpy", None)
            if h:
                h(self, s, ins, args[0], args[1], args[2])
            self.memcpy(s, ins, args[0], args[1], args[2])
            s.top.i += 1
            return [s]
        if b == "memset":
            k = s.poly.norm(args[2]) if isinstance(args[2], Lin) else None
            if isinstance(args[0], Ptr):
                self.mon.on_access(self, s, ins, args[0], int(k.k) if k is not None and k.is_const() else args[2], True)
                if k is not None and k.is_const() and isinstance(args[1], Lin) and s.poly.norm(args[1]) == ZERO:
                    r = args[0].r
                    self.write(s, args[0], int(k.k), UNDEF)
                    lay = s.rinfo[r].layout
                    done = 0
                    if lay and s.poly.norm(args[0].o).is_const():
                        base = int(s.poly.norm(args[0].o).k)
                        for off, sz, ty in lay:
                            if base <= off and off + sz <= base + int(k.k):
                                s.mem.setdefault(r, {})[Lin.c(off)] = (sz, ZERO if ty[0] in "ip" else Tok("fp:0"))
                                done += sz
                    if not done:
                        kk = int(k.k)
                        o = 0
                        while o < kk and kk <= 4096:
                            z = 8 if kk - o >= 8 else (4 if kk - o >= 4 else 1)
                            s.mem.setdefault(r, {})[s.poly.norm(args[0].o + o)] = (z, ZERO)
                            o += z
                elif (k is not None and k.is_const() and isinstance(args[1], Lin) and s.poly.norm(args[1]).is_const()
                      and self.rinf(s, args[0].r).kind == "alloca" and self.rinf(s, args[0].r).size is not None
                      and s.poly.entails_eq(args[0].o) and s.poly.entails_eq(self.rinf(s, args[0].r).size - k)):
                    s.mem.pop(args[0].r, None)
                    b = int(s.poly.norm(args[1]).k) & 255
                    s.rinfo[args[0].r] = self.rinf(s, args[0].r).copy(lossy=False, fill=b - 256 if b > 127 else b)
                else:
                    self.havoc_region(s, args[0].r)
            s.top.i += 1
            return [s]
        if b in ("umax", "umin", "smax", "smin"):
            a, c = args
            out = []
            for t, r in self.cmp(s, ins, b[0] + "lt", a, c):
                out += self.setr(t, ins, (c if r else a) if b.endswith("max") else (a if r else c))
            return out
        if b == "abs":
            out = []
            for t, r in self.split_ge(s, args[0]):
                out += self.setr(t, ins, args[0] if r else -args[0])
            return out
        if b in ("expect", "launder", "strip", "annotation", "ssa"):
            return self.setr(s, ins, args[0])
        if b == "is" and n[2] == "constant":
            return self.setr(s, ins, ZERO)
        if b == "eh" and n[2] == "typeid":
            a = args[0]
            return self.setr(s, ins, Lin.sym("$typeid:%s" % (a.r if isinstance(a, Ptr) else a)))
        if b in ("sadd", "uadd", "ssub", "usub", "smul", "umul") and len(n) > 2 and n[2] == "with":
            a, c = args
            if isinstance(a, Lin) and isinstance(c, Lin):
                if b[1:] == "add":
                    r = a + c
                elif b[1:] == "sub":
                    r = a - c
                else:
                    an, cn = s.poly.norm(a), s.poly.norm(c)
                    r = an * cn.k if cn.is_const() else (cn * an.k if an.is_const() else None)
                if r is not None:
                    # overflow assumed away (documented)
                    return self.setr(s, ins, Agg((r, ZERO)))
            return self.setr(s, ins, Agg((self.fresh("ovf", lossy=True), ZERO)))
        if b in ("trap", "ubsantrap"):
            self.mon.exit(self, s, "trap", None)
            return []
        if b in ("stacksave",):
            return self.setr(s, ins, Tok("ss"))
        if b in ("stackrestore", "va_start", "va_end", "va_copy"):
            s.top.i += 1
            return [s]
        if b == "objectsize":
            return self.setr(s, ins, Lin.c(-1))
        if b in ("fabs", "fmuladd", "floor", "ceil", "round", "sqrt", "pow", "maxnum", "minnum", "trunc", "rint", "nearbyint", "copysign"):
            h = getattr(self.mon, "fp", None)
            r = h(self, s, dict(ins, op=b), tuple(args)) if h is not None else None
            return self.setr(s, ins, Tok(("fp", b) + tuple(args)) if r is None else r)
        return None


def lins(v):
    if isinstance(v, Lin):
        yield v
    elif isinstance(v, Ptr):
        yield v.o
    elif isinstance(v, Agg):
        for x in v.v:
            yield from lins(x)
    elif isinstance(v, Cat):
        for x in v.v:
            yield from lins(x[2])


def split_struct(ty):
    ty = ty.strip()
    if not (ty.startswith("{") and ty.endswith("}")):
        return None
    out, depth, cur = [], 0, ""
    for ch in ty[1:-1]:
        if ch in "{[<(":
            depth += 1
        if ch in "}])>":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out
