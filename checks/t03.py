#!/usr/bin/env python3
"""T03 progress trackers: shared fields under their lock, progress computed from the current count, every change notified once, without the lock."""
import os
import sys
from fractions import Fraction
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from ai import Monitor, AnalysisError, Bottom, PathEnd, UNDEF

FIELDS = ("mtx", "cb", "status", "show", "lo", "hi", "mod", "inhigh", "in", "out")
GFIELDS = ("mtx", "silent", "height", "trackers", "active")
SIZE = {"show": 1, "lo": 4, "hi": 4, "mod": 4, "inhigh": 8, "in": 8, "out": 4}


class Real:
    """rational functions over symbols; nonlinear ones are named by a symbol"""

    def __init__(self):
        self.defs = {}
        self.rounds = []

    def poly(self, v):
        out = {}
        for x, c in v.t:
            out[((x, 1),)] = Fraction(c)
        if v.k:
            out[()] = Fraction(v.k)
        return out

    @staticmethod
    def mul(a, b):
        out = {}
        for m, c in a.items():
            for n, d in b.items():
                e = dict(m)
                for x, k in n:
                    e[x] = e.get(x, 0) + k
                key = tuple(sorted(e.items()))
                out[key] = out.get(key, 0) + c * d
        return {k: v for k, v in out.items() if v}

    @staticmethod
    def add(a, b, f=1):
        out = dict(a)
        for m, c in b.items():
            out[m] = out.get(m, 0) + f * c
        return {k: v for k, v in out.items() if v}

    def of(self, v):
        """Lin -> (num, den)"""
        num, den = {}, {(): Fraction(1)}
        for x, c in v.t:
            a, b = self.defs.get(x, ({((x, 1),): Fraction(1)}, {(): Fraction(1)}))
            a = self.mul(a, {(): Fraction(c)})
            num, den = self.add(self.mul(num, b), self.mul(a, den)), self.mul(den, b)
        if v.k:
            num = self.add(num, self.mul(den, {(): Fraction(v.k)}))
        return num, den

    def same(self, a, b):
        return not self.add(self.mul(a[0], b[1]), self.mul(b[0], a[1]), -1)

    def name(self, r, prefix, tab):
        for x, q in tab.items():
            if x.startswith(prefix) and self.same(q, r):
                return S(x)
        x = "$%s%d" % (prefix[1:], len(tab))
        tab[x] = r
        return S(x)

    def lin(self, r):
        num, den = r
        if not num:
            return ZERO
        if set(den) == {()}:
            k = den[()]
            if all(m == () or len(m) == 1 and m[0][1] == 1 for m in num) and all((c / k).denominator == 1 for c in num.values()):
                out = ZERO
                for m, c in num.items():
                    c = int(c / k)
                    out = out + (Lin.c(c) if m == () else S(m[0][0]) * c)
                return out
        return self.name(r, "$r", self.defs)

    def prod(self, a, b):
        p, q = self.of(a), self.of(b)
        return self.lin((self.mul(p[0], q[0]), self.mul(p[1], q[1])))

    def quot(self, a, b):
        p, q = self.of(a), self.of(b)
        return self.lin((self.mul(p[0], q[1]), self.mul(p[1], q[0])))

    def round(self, a):
        r = self.of(a)
        for x, q in self.rounds:
            if self.same(q, r):
                return S(x)
        x = "$rnd%d" % len(self.rounds)
        self.rounds.append((x, r))
        return S(x)


class Prog(Monitor):
    """one thread; everybody else may do anything the locks allow"""
    taint = True
    can_bound = True
    setter = False      # a setter call: the count restarts when the bounds change
    kind = None         # update / inc / mono

    def __init__(self):
        self.R = Real()

    def bound(self, I, s, n):
        return True

    def bind(self, I, s, f):
        s.ghost.update(held=(), on=0, cb=0, net=0, touch=0, bnet=0, btouch=0, pend=0, fresh=0, wr=0, seen=None, lastin=None, steq=-1, str=0, inz=0, fresh_in=0)
        for k in ("old:" + x for x in ("show", "lo", "hi", "mod", "inhigh", "out")):
            s.ghost[k] = None
        for a in f.fn.args:
            n = a["name"]
            if a["ty"] == "ptr":
                r = "X:" + n
                s.rinfo[r] = RInfo(None, "ext")
                v = Ptr(r)
            elif a["ty"] == "i1":
                v = S("$" + n)
                s.poly.add_ge(v)
                s.poly.add_ge(1 - v)
            else:
                v = S("$" + n)
                if a["ty"] != "float":
                    s.poly.add_ge(v)
            f.regs[a["id"]] = v

    # -- the tracker
    def c_world(self, I, s, ins, args):
        self.T = args[0].r
        self.off = {}
        for n, p in zip(FIELDS, args[1:]):
            if p.r != self.T:
                raise AnalysisError("field outside the object")
            self.off[n] = int(s.poly.norm(p.o).k)
        self.inner = 1
        try:
            for n, w in dict(RST, show=ONE, out=ZERO).items():
                I.need_eq(s, self.cellv(I, s, n), w, "initial", "%s of a new tracker is not what reset_bounds sets" % n, ins)
            v = I.load(s, None, Ptr(self.T, Lin.c(self.off["in"])), 8, "i64")
            I.need_eq(s, v, ZERO, "initial", "the count of a new tracker is not zero", ins)
        finally:
            self.inner = 0
        s.ghost["on"] = 1
        return [(s, None)]

    def field(self, s, p):
        """name of the field a pointer lies in; None: some other"""
        if not isinstance(p, Ptr) or p.r != getattr(self, "T", None) or not s.ghost["on"]:
            return False
        o = s.poly.norm(p.o)
        if not o.is_const():
            return None
        best = None
        for n, k in self.off.items():
            if k <= o.k and (best is None or k > self.off[best]):
                best = n
        if best == "mtx" and o.k - self.off[best] >= 40 or best == "cb" and o.k - self.off[best] >= 32:
            return None
        return best

    def cellv(self, I, s, n):
        v = I.load(s, None, Ptr(self.T, Lin.c(self.off[n])), SIZE[n], "float" if n in ("lo", "hi", "mod", "out") else "i%d" % (8 * SIZE[n]))
        r = self.real(v)
        I.need(s, r is not None or None, "not-a-number", "%s_ may become something that is no number (zero by zero)" % n)
        return r

    def lock_of(self, p, s):
        return (p.r, int(s.poly.norm(p.o).k)) if isinstance(p, Ptr) else ("?", 0)

    def mine(self, s):
        return (self.T, self.off["mtx"]) in s.ghost["held"]

    def on_access(self, I, s, ins, ptr, size, write):
        f = self.field(s, ptr)
        if f is False or f == "mtx":
            return
        atomic = bool(ins and (ins.get("atomic") or ins["op"] in ("atomicrmw", "cmpxchg")))
        if f == "cb" and not write:
            return                      # set once, when the tracker is made
        if atomic:
            if write and f == "out":
                I.need(s, self.mine(s) or None, "out-unlocked", "the progress is published without the lock: it may be older than what another thread has published", ins)
            return
        if getattr(self, "inner", 0):
            return
        I.need(s, self.mine(s) or None, "unlocked", "%s of the tracker is %s without its lock" % ({"inhigh": "in_high_", None: "a member"}.get(f, "%s_" % f), "written" if write else "read"), ins)

    def havoc(self, I, s):
        """the lock was taken: its fields hold anything the invariant allows"""
        self.inner = 1
        try:
            v = {n: I.fresh(n, s=s) for n in ("lo", "hi", "mod", "inhigh", "out", "show")}
            s.poly.add_ge(v["hi"] - v["lo"])
            s.poly.add_ge(v["mod"] - 1)
            s.poly.add_ge(v["inhigh"])
            s.poly.add_ge(v["out"] - v["lo"])
            s.poly.add_ge(v["hi"] - v["out"])
            s.poly.add_ge(v["show"])
            s.poly.add_ge(1 - v["show"])
            for n, x in v.items():
                I.write(s, Ptr(self.T, Lin.c(self.off[n])), SIZE[n], x)
                s.ghost["old:" + n] = x
            s.ghost.update(lastin=None, steq=-1, str=0, inz=0)
        finally:
            self.inner = 0

    def count(self, I, s):
        v = I.fresh("in", s=s)
        s.poly.add_ge(v)
        return v

    def c_pthread_mutex_lock(self, I, s, ins, args):
        l = self.lock_of(args[0], s)
        I.need(s, l not in s.ghost["held"] or None, "self-deadlock", "a lock is taken that is already held", ins)
        s.ghost["held"] = s.ghost["held"] + (l,)
        if s.ghost["on"] and self.mine(s) and l == (self.T, self.off["mtx"]):
            self.havoc(I, s)
        return [(s, ZERO)]

    def c_pthread_mutex_unlock(self, I, s, ins, args):
        l = self.lock_of(args[0], s)
        I.need(s, l in s.ghost["held"] or None, "unlock", "a lock is released that is not held", ins)
        out = [s]
        if s.ghost["on"] and l == (self.T, self.off["mtx"]):
            out = self.section(I, s, ins)
        for t in out:
            t.ghost["held"] = tuple(x for x in t.ghost["held"] if x != l)
            for k in ("lo", "hi", "mod", "inhigh", "out", "show"):
                t.mem.get(self.T, {}).pop(Lin.c(self.off[k]), None) if s.ghost["on"] else None
        return [(t, ZERO) for t in out]

    def section(self, I, s, ins):
        """end of a critical section: invariant, what has changed, what was published"""
        self.inner = 1
        try:
            cur = {n: self.cellv(I, s, n) for n in ("show", "lo", "hi", "mod", "inhigh", "out")}
        finally:
            self.inner = 0
        G = s.ghost
        I.need_ge(s, cur["hi"] - cur["lo"], "bounds", "the lower bound lies above the upper one", ins)
        I.need_ge(s, cur["mod"] - 1, "bounds", "the step is not positive", ins)
        states = [s]
        if self.kind and G["lastin"] is not None:
            states = []
            for t in self.published(I, s, ins, cur):
                t.ghost["fresh"] = int(bool(t.ghost["wr"] or self.kind == "mono"))
                states.append(t)
        for t in states:
            for n, w in getattr(self, "want", {}).items():
                if n == "st":
                    t.ghost["set:st"] = int(t.ghost["steq"] == 1)
                else:
                    t.ghost["set:" + n] = int(bool(t.poly.entails_eq(cur[n] - w)))
        out = []
        for t in states:
            todo = [(t, 0, 0)]
            for n in ("lo", "hi", "mod", "inhigh"):
                todo = [(v, b or not eq, 0) for u, b, _ in todo for v, eq in I.split_eq(u, cur[n] - u.ghost["old:" + n])]
            todo = [(v, b, not eq) for u, b, _ in todo for v, eq in I.split_eq(u, cur["out"] - u.ghost["old:out"])]
            todo = [(v, b, o, not eq) for u, b, o in todo for v, eq in I.split_eq(u, cur["show"] - u.ghost["old:show"])]
            for u, b, o, sh in todo:
                H = u.ghost
                if self.setter:
                    if b:
                        I.need(u, bool(H["inz"]) or None, "restart", "the bounds change and the count is not reset", ins)
                        I.need_eq(u, cur["out"], cur["lo"], "restart", "the bounds change and the progress is not reset to the lower bound", ins)
                    elif not H["btouch"]:
                        I.need(u, (not H["inz"] and not o) or None, "restart", "the progress is reset although the bounds are the same", ins)
                    net = b or sh or H["str"]
                else:
                    I.need(u, (not b and not sh and not H["str"]) or None, "bounds", "an update changes the bounds or the status", ins)
                    net = o
                for n in ("lo", "hi", "mod", "inhigh", "show"):
                    if self.setter and n not in self.want:
                        I.need_eq(u, cur[n], H["old:" + n], "value", "a member changes that was not to be set", ins)
                if self.setter and "st" not in self.want:
                    I.need(u, not H["str"] or None, "value", "the status changes although it was not to be set", ins)
                I.need_ge(u, cur["out"] - cur["lo"], "out-range", "the progress lies below the lower bound", ins)
                I.need_ge(u, cur["hi"] - cur["out"], "out-range", "the progress lies above the upper bound", ins)
                if net:
                    H["net"], H["touch"], H["pend"] = 1, 1, 1
                out.append(u)
        return out

    def published(self, I, s, ins, cur):
        """the progress is the one of the count read in this section"""
        R, x = self.R, s.ghost["lastin"]
        lo, hi, mod, H = (s.ghost["old:" + n] for n in ("lo", "hi", "mod", "inhigh"))
        out = []
        for t, zero in I.split_eq(s, H):
            if zero:
                I.need_eq(t, cur["out"], hi, "progress", "nothing is to be done: the progress is the upper bound", ins)
                out.append(t)
                continue
            V = lo + R.prod(R.round(R.quot(R.prod(hi - lo, R.quot(x, H)), mod)), mod)
            for u, above in I.split_ge(t, V - hi):
                if above:
                    I.need_eq(u, cur["out"], hi, "progress", "the progress published is not the one of the count, limited to the bounds", ins)
                    out.append(u)
                    continue
                for w, below in I.split_ge(u, lo - V):
                    I.need_eq(w, cur["out"], lo if below else V, "progress", "the progress published is not the one of the count, limited to the bounds", ins)
                    out.append(w)
        return out

    # -- atomics
    def on_load(self, I, s, ins, p, size):
        f = self.field(s, p)
        if f == "in" and ins.get("atomic"):
            v = self.count(I, s)
            o = s.ghost["seen"]
            if o is None or self.kind != "mono" or not s.poly.entails_ge(o - S("$n")):
                s.ghost["seen"] = v
            if self.mine(s):
                s.ghost["lastin"] = v
            return [(s, v)]
        if f == "out" and not self.mine(s):
            return [(s, I.fresh("out", s=s))]
        return None

    def written_in(self, I, s, ins, how, v, old=None):
        G = s.ghost
        G["fresh"], G["lastin"] = 0, None
        k = self.kind
        if k is None:
            ok = how == "store" and s.poly.entails_eq(v) and self.setter
            I.need(s, bool(ok) or None, "count", "the count is changed to something else than zero", ins)
            G["inz"] = 1
            return
        if k == "update":
            I.need(s, how in ("store", "xchg") or None, "count", "the count is not set", ins)
            I.need_eq(s, v, S("$n"), "count", "the count is set to another value", ins)
        elif k == "inc":
            I.need(s, how == "add" or None, "count", "the count is not incremented in one step: concurrent increments get lost", ins)
            I.need_eq(s, v, self.amount(), "count", "the count is incremented by another amount", ins)
            I.need(s, not G["wr"] or None, "count", "the count is incremented twice", ins)
        else:
            I.need(s, how == "cas" or None, "count", "the count is set without comparing: it may be lowered", ins)
            I.need_eq(s, v, S("$n"), "count", "the count is set to another value", ins)
            I.need_ge(s, v - old, "count", "the count is lowered", ins)
        G["wr"] = 1

    def amount(self):
        return S("$n")

    def on_store(self, I, s, ins, p, size, v):
        f = self.field(s, p)
        if f == "in" and not getattr(self, "inner", 0):
            if not ins.get("atomic"):
                I.need(s, None, "unlocked", "the count is written non-atomically", ins)
            self.written_in(I, s, ins, "store", v)
        elif f in ("lo", "hi", "mod", "inhigh", "show") and self.real(v) is not None and not getattr(self, "inner", 0):
            v = self.real(v)
            if not s.poly.entails_eq(v - s.ghost["old:" + f]):
                s.ghost["touch"] = 1
                if f != "show":
                    s.ghost["btouch"] = 1

    def rmw(self, I, s, ins, name, args):
        p = args[0]
        f = self.field(s, p)
        if f is False:
            return None
        self.on_access(I, s, ins, p, ins["sz"], True)
        op = ins.get("rmw")
        if f == "in":
            v = self.count(I, s)
            if name.startswith("@cmpxchg"):
                t = s.copy()
                I.assume_eq(s, v - args[1])
                self.written_in(I, s, ins, "cas", args[2], args[1])
                t.ghost["seen"] = v
                return [(s, Agg((v, ONE))), (t, Agg((v, ZERO)))]
            if op in ("add", "xchg"):
                self.written_in(I, s, ins, op, args[1])
                return [(s, v)]
            raise AnalysisError("atomic %s on the count" % op)
        if f == "out" and op == "xchg":
            self.inner = 1
            try:
                old = self.cellv(I, s, "out")
                I.write(s, p, ins["sz"], args[1])
            finally:
                self.inner = 0
            return [(s, old)]
        raise AnalysisError("atomic %s on a member" % (op or name))

    # -- floating point
    def real(self, v):
        if isinstance(v, Lin):
            return v
        if isinstance(v, Tok) and isinstance(v.n, str) and v.n.startswith("fp:"):
            try:
                x = Fraction(v.n[3:])
            except ValueError:
                return None
            if x.denominator == 1:
                return Lin.c(int(x))
        return None

    def fp(self, I, s, ins, args):
        op = ins["op"]
        a = [self.real(x) for x in args]
        if any(x is None for x in a):
            return None
        if op in ("sitofp", "uitofp", "fpext", "fptrunc"):
            return a[0]
        if op == "fneg":
            return -a[0]
        if op == "fadd":
            return a[0] + a[1]
        if op == "fsub":
            return a[0] - a[1]
        if op == "fmul":
            return self.R.prod(a[0], a[1])
        if op == "fmuladd":
            return self.R.prod(a[0], a[1]) + a[2]
        if op == "fdiv":
            return [(t, Tok("fp:nan") if zero else self.R.quot(a[0], a[1])) for t, zero in I.split_eq(s, a[1])]
        if op == "round":
            return self.R.round(a[0])
        if op in ("maxnum", "minnum"):
            return None
        return None

    def fpcmp(self, I, s, ins, a, b):
        a, b = self.real(a), self.real(b)
        if a is None or b is None:
            return None
        p = ins["pred"]
        c = p[1:]
        if p in ("ord", "uno", "true", "false"):
            return [(s, p in ("ord", "true"))]
        if c == "eq":
            return I.split_eq(s, a - b)
        if c == "ne":
            return [(t, not r) for t, r in I.split_eq(s, a - b)]
        if c in ("lt", "le", "gt", "ge"):
            return I.scmp(s, c, a, b)
        return None

    # -- calls
    def c_notified(self, I, s, ins, args):
        G = s.ghost
        I.need(s, not self.mine(s) or None, "callback-locked", "the callback runs while the lock is held: it deadlocks when it looks at the tracker", ins)
        I.need_eq(s, args[0], Ptr(self.T), "callback", "the callback gets another tracker", ins)
        G["cb"] = min(G["cb"] + 1, 2)
        I.need(s, (G["cb"] == 1) or None, "callback", "the callback runs twice for one change", ins)
        G["pend"] = 0
        s.ev("callback")
        return [(s, None)]

    def string_op(self, I, s, ins, dem, args):
        st = [i for i, a in enumerate(args) if self.field(s, a) == "status"]
        if "::~basic_string(" in dem:
            return [(s, None)]
        if st:
            self.on_access(I, s, ins, args[st[0]], 32, "operator=(" in dem)
        if "operator==<char" in dem or "operator!=<char" in dem:
            ne = "operator!=<char" in dem
            if st:
                if s.ghost["steq"] < 0:
                    t = s.copy()
                    s.ghost["steq"], t.ghost["steq"] = 1, 0
                    return [(u, Lin.c(int(bool(u.ghost["steq"]) != ne))) for u in (s, t)]
                return [(s, Lin.c(int(bool(s.ghost["steq"]) != ne)))]
            t = s.copy()
            return [(s, ONE), (t, ZERO)]
        if st and st[0] == 0 and ("operator=(" in dem or "::assign(" in dem or "::swap(" in dem):
            out = []
            if s.ghost["steq"] < 0:
                t = s.copy()
                t.ghost["steq"] = 1
                out.append((t, args[0]))
            if s.ghost["steq"] != 1:
                s.ghost.update(steq=1, str=1, touch=1)
            out.append((s, args[0]))
            return out
        if st and not dem.split("(")[0].endswith("~basic_string"):
            if any(x in dem for x in ("::empty(", "::size(", "::data(", "::c_str(")):
                return [(s, I.fresh_ty(s, ins["ty"], 8))]
            raise AnalysisError("string operation " + dem[:80])
        if ins["ty"] == "void":
            return [(s, None)]
        return [(s, args[0] if ins["ty"] == "ptr" and args else I.fresh_ty(s, ins["ty"], 8))]

    def call(self, I, s, ins, name, dem, args):
        h = getattr(self, "c_" + name, None)
        if h is not None:
            return h(I, s, ins, args)
        if name.startswith("@atomicrmw") or name.startswith("@cmpxchg"):
            return self.rmw(I, s, ins, name, args)
        if dem.startswith("std::runtime_error utl::fail<") or dem.startswith("utl::fail<") or dem.startswith("std::runtime_error::"):
            return [(s, None if ins["ty"] == "void" else UNDEF)]
        if "basic_string<" in dem and not dem.startswith("std::map<"):
            if dem.startswith("std::__cxx11::basic_string<") or "operator==<char" in dem or "operator!=<char" in dem:
                return self.string_op(I, s, ins, dem, args)
        return None

    # -- the end of the call
    def c_over(self, I, s, ins, args):
        self.done(I, s, "return", ins)
        s.ghost["on"] = 0
        return [(s, None)]

    def exit(self, I, s, kind, val):
        self.done(I, s, kind, None)

    def done(self, I, s, kind, ins):
        G = s.ghost
        I.need(s, not G["held"] or None, "lock-leak", "a lock is still held", ins)
        if kind == "throw":
            self.refused(I, s)
        else:
            self.accepted(I, s, ins)
        I.need(s, not G["pend"] or None, "callback", "a change is not notified", ins)
        I.need(s, (not G["cb"] or bool(G["touch"])) or None, "callback", "the callback runs although nothing has changed", ins)

    def refused(self, I, s):
        I.need(s, None, "throws", "the call throws")

    def accepted(self, I, s, ins):
        if self.kind:
            G = s.ghost
            if self.kind == "mono":
                ok = G["wr"] or G["seen"] is not None and s.poly.entails_ge(G["seen"] - S("$n"))
                I.need(s, bool(ok) or None, "count", "the count is neither raised to the given value nor seen to be at least as high", ins)
            else:
                I.need(s, bool(G["wr"]) or None, "count", "the count is not changed", ins)
            I.need(s, bool(G["fresh"]) or None, "stale", "the progress is not computed anew after the count was changed", ins)


class Update(Prog):
    kind = "update"


class Inc(Prog):
    kind = "inc"


class Inc1(Inc):
    def amount(self):
        return ONE


class Mono(Prog):
    kind = "mono"


class Setter(Prog):
    setter = True
    args = ()       # symbols of the bounds and the step that were given

    def refused(self, I, s):
        bad = False
        if "ab" in self.args:
            bad = bad or s.poly.entails_ge(S("$a") - S("$b") - 1)
        if "m" in self.args:
            bad = bad or s.poly.entails_ge(-S("$m"))
        I.need(s, bool(bad) or None, "throws", "the call throws although the arguments are fine")

    def accepted(self, I, s, ins):
        for n in self.want:
            I.need(s, bool(s.ghost.get("set:" + n)) or None, "value", "%s does not get the value given" % {"st": "the status", "inhigh": "in_high_"}.get(n, n + "_"), ins)
        if "ab" in self.args:
            I.need_ge(s, S("$b") - S("$a"), "accepts", "a lower bound above the upper one is accepted", ins)
        if "m" in self.args:
            I.need_ge(s, S("$m") - 1, "accepts", "a step that is not positive is accepted", ins)


M_ = S("$M")
TRK = lambda n: Ptr("TRK:" + n)


class Glob(Monitor):
    """the registry: its members under its lock, names map to one tracker each"""
    taint = True
    can_bound = True

    def bound(self, I, s, n):
        return I.assume_ge(s, Lin.c(n) - M_)

    def bind(self, I, s, f):
        s.ghost.update(held=(), on=0, has=-1, act=-1, res=None, cleared=0, shown=0, visited=ZERO, created=0, made=0, names=())
        s.poly.add_ge(M_)
        s.poly.add_ge(Lin.c(2 ** 31 - 1) - M_)
        for a in f.fn.args:
            n = a["name"]
            if a["ty"] == "ptr":
                s.rinfo["X:" + n] = RInfo(None, "ext")
                f.regs[a["id"]] = Ptr("X:" + n)
            else:
                v = S("$" + n)
                s.poly.add_ge(v)
                s.poly.add_ge(1 - v)
                f.regs[a["id"]] = v
        s.rinfo["GT"] = RInfo(None, "ext")
        s.rinfo["TR"] = RInfo(None, "ext")
        s.rinfo["PAIR"] = RInfo(None, "ext")
        s.rinfo["EP"] = RInfo(None, "ext")
        s.rinfo["NODE"] = RInfo(None, "ext")

    def c_gworld(self, I, s, ins, args):
        self.off = {n: int(s.poly.norm(p.o).k) for n, p in zip(GFIELDS, args[1:])}
        v = S("$oldsilent")
        s.poly.add_ge(v)
        s.poly.add_ge(1 - v)
        I.write(s, self.at("silent"), 1, v)
        s.ghost["on"] = 1
        return [(s, None)]

    def at(self, n):
        return Ptr("GT", Lin.c(self.off[n]))

    def glocked(self, s):
        return ("GT", self.off["mtx"]) in s.ghost["held"]

    def touches(self, I, s, ins, p, how):
        """a library function works on the object"""
        if isinstance(p, Ptr) and p.r in ("GT", "PAIR", "EP", "NODE") and s.ghost["on"]:
            I.need(s, self.glocked(s) or None, "unlocked", "the registry is %s without its lock" % how, ins)

    def on_access(self, I, s, ins, ptr, size, write):
        if getattr(self, "inner", 0) or not s.ghost["on"]:
            return
        atomic = bool(ins and (ins.get("atomic") or ins["op"] in ("atomicrmw", "cmpxchg")))
        if ptr.r == "GT" and not atomic:
            I.need(s, self.glocked(s) or None, "unlocked", "a member of the registry is %s without its lock" % ("written" if write else "read"), ins)
        if ptr.r == "TR" and not atomic:
            I.need(s, any(h[0] == "TR" for h in s.ghost["held"]) or None, "unlocked", "a member of a tracker is %s without its lock" % ("written" if write else "read"), ins)

    def init_cell(self, I, s, region, off, size, ty):
        return None

    # -- locks
    def c_pthread_mutex_lock(self, I, s, ins, args):
        p = args[0]
        l = (p.r, int(s.poly.norm(p.o).k))
        I.need(s, l not in s.ghost["held"] or None, "self-deadlock", "a lock is taken that is already held", ins)
        if l[0] == "GT":
            I.need(s, not s.ghost["held"] or None, "lock-order", "the registry is locked while a tracker is locked: print() locks them the other way round", ins)
        s.ghost["held"] = s.ghost["held"] + (l,)
        if l[0] == "TR":
            s.ghost["visited"] = s.poly.norm(s.ghost["visited"] + 1)
            s.mem.pop("TR", None)
        if l[0] == "GT" and s.ghost["act"] < 0:
            t = s.copy()
            s.ghost["act"], t.ghost["act"] = 1, 0
            I.write(s, self.at("active"), 8, TRK("act"))
            I.write(t, self.at("active"), 8, ZERO)
            return [(s, ZERO), (t, ZERO)]
        return [(s, ZERO)]

    def c_pthread_mutex_unlock(self, I, s, ins, args):
        p = args[0]
        l = (p.r, int(s.poly.norm(p.o).k))
        I.need(s, l in s.ghost["held"] or None, "unlock", "a lock is released that is not held", ins)
        s.ghost["held"] = tuple(x for x in s.ghost["held"] if x != l)
        return [(s, ZERO)]

    # -- shared pointers: one word naming the tracker
    def sp(self, I, s, p):
        if isinstance(p.r, str) and p.r.startswith("X:"):
            return TRK("arg")
        if p.r == "PAIR":
            return Ptr("TR")
        self.inner = 1
        try:
            v = I.find_cell(s, p.r, s.poly.norm(p.o), 8)
        finally:
            self.inner = 0
        if v is None:
            raise AnalysisError("unknown shared pointer %s" % I.show(s, p))
        return v

    def setsp(self, I, s, p, v):
        self.inner = 1
        try:
            I.write(s, p, 8, v)
        finally:
            self.inner = 0

    def shared_ptr(self, I, s, ins, dem, args):
        dem = dem.replace("(__gnu_cxx::_Lock_policy)", "")
        if "std::operator==<" in dem or "std::operator!=<" in dem or "::operator bool" in dem:
            self.touches(I, s, ins, args[0], "read")
            v = self.sp(I, s, args[0])
            null = isinstance(v, Lin)
            return [(s, Lin.c(int(null == ("operator==" in dem))))]
        head, _, sig = dem.partition("(")
        if "::~" in head or head.startswith("std::__shared_count"):
            return [(s, None)]
        if "make_shared" in head:
            s.ghost["made"] = 1
            self.setsp(I, s, args[0], TRK("new"))
            return [(s, None)]
        if head.endswith("::operator->") or head.endswith("::get") or head.endswith("::operator*"):
            self.touches(I, s, ins, args[0], "read")
            v = self.sp(I, s, args[0])
            return [(s, v)]
        if head.endswith("::use_count"):
            if isinstance(self.sp(I, s, args[0]), Lin):
                return [(s, ZERO)]
            n = I.fresh("use", s=s)
            s.poly.add_ge(n - 1)
            return [(s, n)]
        op = head.rsplit("::", 1)[1]
        assign = op == "operator="
        if assign or op in ("shared_ptr", "__shared_ptr"):
            r = None if ins["ty"] == "void" else args[0]
            if assign:
                self.touches(I, s, ins, args[0], "written")
            if len(args) == 1 or "nullptr" in sig:
                self.setsp(I, s, args[0], ZERO)
                return [(s, r)]
            self.touches(I, s, ins, args[1], "read")
            v = self.sp(I, s, args[1])
            self.setsp(I, s, args[0], v)
            if "&&" in sig:
                self.touches(I, s, ins, args[1], "written")
                self.setsp(I, s, args[1], ZERO)
            return [(s, r)]
        if op == "reset" and len(args) == 1:
            self.touches(I, s, ins, args[0], "written")
            self.setsp(I, s, args[0], ZERO)
            return [(s, None)]
        raise AnalysisError("shared pointer operation " + dem[:100])

    # -- the map
    def entry(self, I, s, new=None):
        """the name's entry, as it was or made now"""
        G = s.ghost
        if G["has"] != 1:
            self.setsp(I, s, Ptr("EP", Lin.c(32)), TRK("E") if new is None else new)
            G["created"] = int(new is not None)
        G["has"] = 1
        return Ptr("E")

    def registered(self, I, s):
        """the tracker of the name"""
        v = self.sp(I, s, Ptr("EP", Lin.c(32))) if s.ghost["has"] == 1 else ZERO
        I.need(s, (isinstance(v, Ptr) and v.r == ("TRK:new" if s.ghost["created"] else "TRK:E")) or None, "new", "the name does not keep its tracker, or gets none of its own")
        return v

    def key(self, I, s, ins, p):
        I.need(s, self.named(s, p) or None, "name", "another name is looked up", ins)

    def named(self, s, p):
        return isinstance(p, Ptr) and (p.r == "X:n" or p.r in s.ghost["names"])

    def map_op(self, I, s, ins, dem, args):
        head = dem[:dem.rindex(">::") if ">::" in dem else len(dem)]
        op = dem[len(head) + 3:].split("(")[0].split("<")[0].strip() if ">::" in dem else dem
        self.touches(I, s, ins, args[0], "used")
        G = s.ghost
        if op in ("find", "lower_bound"):
            self.key(I, s, ins, args[1])
            if op != "find":
                raise AnalysisError("map operation " + op)
            out = []
            if G["has"] != 0:
                t = s.copy()
                out.append((t, self.entry(I, t)))
            if G["has"] != 1:
                s.ghost["has"] = 0
                out.append((s, Ptr("NODE", M_)))
            return out
        if op in ("contains", "count"):
            self.key(I, s, ins, args[1])
            out = []
            if G["has"] != 0:
                t = s.copy()
                self.entry(I, t)
                out.append((t, ONE))
            if G["has"] != 1:
                s.ghost["has"] = 0
                out.append((s, ZERO))
            return out
        if op in ("end", "cend"):
            return [(s, Ptr("NODE", M_))]
        if op in ("begin", "cbegin"):
            return [(s, Ptr("NODE"))]
        if op == "emplace_hint" and len(args) == 4:
            self.key(I, s, ins, args[2])
            out = []
            if G["has"] != 0:
                t = s.copy()
                out.append((t, self.entry(I, t)))
            if G["has"] != 1:
                out.append((s, self.entry(I, s, self.sp(I, s, args[3]))))
            return out
        if op in ("emplace", "try_emplace"):
            self.key(I, s, ins, args[1])
            out = []
            if G["has"] != 0:
                t = s.copy()
                out.append((t, Agg((self.entry(I, t), ZERO))))
            if G["has"] != 1:
                v = self.sp(I, s, args[2])
                I.need(s, (isinstance(v, Ptr) and v.r == "TRK:new") or None, "new", "the entry does not get a new tracker", ins)
                out.append((s, Agg((self.entry(I, s, v), ONE))))
            return out
        if op == "operator[]":
            self.key(I, s, ins, args[1])
            out = []
            if G["has"] != 0:
                t = s.copy()
                self.entry(I, t)
                out.append((t, Ptr("EP", Lin.c(32))))
            if G["has"] != 1:
                self.entry(I, s, ZERO)
                out.append((s, Ptr("EP", Lin.c(32))))
            return out
        if op == "clear":
            G["cleared"] = 1
            return [(s, None)]
        if op == "size":
            return [(s, M_)]
        if op == "empty":
            return [(t, Lin.c(int(z))) for t, z in I.split_eq(s, M_)]
        raise AnalysisError("map operation " + op)

    def iter_op(self, I, s, ins, dem, args):
        self.inner = 1
        try:
            v = I.load(s, ins, args[0], 8, "ptr") if isinstance(args[0], Ptr) and args[0].r not in ("NODE", "E") else args[0]
        finally:
            self.inner = 0
        if "::operator*" in dem or "::operator->" in dem:
            self.touches(I, s, ins, Ptr("NODE"), "used")
            if v.r == "E":
                return [(s, Ptr("EP"))]
            I.need_ge(s, M_ - v.o - 1, "end", "the end is dereferenced", ins)
            return [(s, Ptr("PAIR"))]
        if "::operator++()" in dem or "::operator++(int)" in dem:
            if v.r != "NODE":
                raise AnalysisError("iteration from a found entry")
            self.inner = 1
            try:
                I.write(s, args[0], 8, Ptr("NODE", s.poly.norm(v.o + 1)))
            finally:
                self.inner = 0
            return [(s, args[0] if "++()" in dem else v)]
        if len(args) == 2 and "iterator(" in dem:
            self.inner = 1
            try:
                w = I.load(s, ins, args[1], 8, "ptr") if args[1].r not in ("NODE", "E") else args[1]
                I.write(s, args[0], 8, w)
            finally:
                self.inner = 0
            return [(s, None if ins["ty"] == "void" else args[0])]
        raise AnalysisError("iterator operation " + dem.split("(")[0][-40:] + dem[-60:])

    def call(self, I, s, ins, name, dem, args):
        h = getattr(self, "c_" + name, None)
        if h is not None:
            return h(I, s, ins, args)
        if dem.startswith("utl::get_global_progress_trackers"):
            return [(s, Ptr("GT"))]
        if dem.startswith("std::map<"):
            return self.map_op(I, s, ins, dem, args)
        if dem.startswith("std::pair<std::_Rb_tree_iterator<") and "std::map<" in dem:
            return self.map_op(I, s, ins, dem[dem.index("std::map<"):], args)
        if dem.startswith("std::_Rb_tree_iterator<") or dem.startswith("std::_Rb_tree_const_iterator<"):
            return self.iter_op(I, s, ins, dem, args)
        if dem.startswith(("std::shared_ptr<", "std::__shared_ptr", "std::make_shared<")) or "::operator==<utl" in dem or "::operator!=<utl" in dem:
            return self.shared_ptr(I, s, ins, dem, args)
        if "basic_ostream<" in dem or "fmt::" in dem and "print" in dem or dem.startswith("std::basic_ios<"):
            s.ghost["shown"] = 1
            return [(s, args[0] if ins["ty"] == "ptr" else None if ins["ty"] == "void" else I.fresh_ty(s, ins["ty"], 8))]
        if "basic_string<" in dem:
            if "::basic_string(" in dem and len(args) == 2 and self.named(s, args[1]):
                s.ghost["names"] = s.ghost["names"] + (args[0].r,)
            elif args and isinstance(args[0], Ptr) and args[0].r in s.ghost["names"] and "::~" not in dem and not any(x in dem for x in ("::size(", "::data(", "::c_str(", "::empty(", "::length(")):
                s.ghost["names"] = tuple(r for r in s.ghost["names"] if r != args[0].r)
            for p in args:
                if isinstance(p, Ptr) and p.r == "TR":
                    self.on_access(I, s, ins, p, 32, False)
            return [(s, None if ins["ty"] == "void" else args[0] if ins["ty"] == "ptr" else I.fresh_ty(s, ins["ty"], 8))]
        if "utl::fail<" in dem or dem.startswith("std::runtime_error::"):
            return [(s, None if ins["ty"] == "void" else UNDEF)]
        if name.startswith("@atomicrmw") and args[0].r == "GT" and ins.get("rmw") == "xchg":
            v = I.load(s, ins, args[0], ins["sz"], ins["ty"])
            self.on_store(I, s, ins, args[0], ins["sz"], args[1])
            I.write(s, args[0], ins["sz"], args[1])
            return [(s, v)]
        return None

    def on_store(self, I, s, ins, p, size, v):
        return None

    def fp(self, I, s, ins, args):
        return I.fresh("f", s=s) if ins["ty"] not in ("void",) else None

    def c_result(self, I, s, ins, args):
        s.ghost["res"] = self.sp(I, s, args[0])
        return [(s, None)]

    def active(self, I, s):
        self.inner = 1
        try:
            return I.find_cell(s, "GT", Lin.c(self.off["active"]), 8)
        finally:
            self.inner = 0

    def exit(self, I, s, kind, val):
        G = s.ghost
        I.need(s, not G["held"] or None, "lock-leak", "a lock is still held")
        self.check(I, s, kind, G["res"], self.active(I, s))

    def is_(self, v, n, I=None, s=None):
        if n == "E":
            w = self.registered(I, s)
            return isinstance(v, Ptr) and isinstance(w, Ptr) and v.r == w.r
        return isinstance(v, Ptr) and v.r == "TRK:" + n

    def returned(self, I, s, kind):
        I.need(s, (kind == "return") or None, "throws", "the call throws")


class Get(Glob):
    def check(self, I, s, kind, res, act):
        self.returned(I, s, kind)
        I.need(s, self.is_(res, "E", I, s) or None, "tracker", "the tracker returned is not the one registered under the name")
        if s.ghost["act"] >= 0:
            I.need(s, (self.is_(act, "act") if s.ghost["act"] else isinstance(act, Lin)) or None, "active", "the active tracker changes")


class Active(Glob):
    def check(self, I, s, kind, res, act):
        if kind != "return":
            I.need(s, (s.ghost["act"] == 0) or None, "throws", "the call throws although there is an active tracker")
            return
        I.need(s, (s.ghost["act"] == 1 and self.is_(res, "act")) or None, "tracker", "the tracker returned is not the active one")
        I.need(s, self.is_(act, "act") or None, "active", "the active tracker changes")


class ActiveOr(Glob):
    def check(self, I, s, kind, res, act):
        self.returned(I, s, kind)
        n = "act" if s.ghost["act"] == 1 else "E"
        I.need(s, self.is_(res, n, I, s) or None, "tracker", "the tracker returned is not the active one (or the one of the name, if there is none)")
        I.need(s, self.is_(act, n, I, s) or None, "active", "the tracker returned is not active")


class Activate(Glob):
    who = "E"

    def check(self, I, s, kind, res, act):
        self.returned(I, s, kind)
        I.need(s, self.is_(res, self.who, I, s) or None, "tracker", "another tracker is returned")
        I.need(s, self.is_(act, self.who, I, s) or None, "active", "the tracker is not made the active one")


class ActivatePtr(Activate):
    who = "arg"


class Clear(Glob):
    def check(self, I, s, kind, res, act):
        self.returned(I, s, kind)
        I.need(s, bool(s.ghost["cleared"]) or None, "clear", "the trackers are not removed")
        I.need(s, (isinstance(act, Lin)) or None, "clear", "the active tracker survives")
        v = I.find_cell(s, "GT", Lin.c(self.off["height"]), 4)
        I.need(s, (isinstance(v, Lin) and s.poly.entails_eq(v)) or None, "clear", "the height of the last output survives")


class Bars(Glob):
    def c_pthread_mutex_lock(self, I, s, ins, args):
        return Glob.c_pthread_mutex_lock(self, I, s, ins, args)

    def on_store(self, I, s, ins, p, size, v):
        if isinstance(p, Ptr) and p.r == "GT" and s.ghost["on"] and s.poly.entails_eq(p.o - self.off["silent"]) and isinstance(v, Lin):
            n = s.ghost.get("set", 0)
            I.need_eq(s, v, S("$oldsilent") if n else S("$silent"), "silent", "the %s value is wrong" % ("restored" if n else "new"), ins)
            s.ghost["set"] = n + 1

    def check(self, I, s, kind, res, act):
        self.returned(I, s, kind)
        I.need(s, (s.ghost.get("set", 0) == 2) or None, "silent", "the output is not switched and switched back")
        I.need(s, bool(s.ghost["cleared"]) or None, "clear", "the trackers are not removed")


class Print(Glob):
    def check(self, I, s, kind, res, act):
        self.returned(I, s, kind)
        G = s.ghost
        o = S("$oldsilent")
        if s.poly.entails_eq(o - 1):
            I.need(s, not G["shown"] or None, "silent", "something is printed although the output is switched off")
            return
        I.need(s, True if s.poly.entails_eq(o) else None, "silent", "the switch is not looked at")
        I.need_eq(s, G["visited"], M_, "print", "not every tracker is printed")
        v = I.find_cell(s, "GT", Lin.c(self.off["height"]), 4)
        I.need_eq(s, v if isinstance(v, Lin) else I.fresh("h", s=s), M_, "print", "the height of the output is not the number of lines")


def setter(*a, **want):
    return type("Setter", (Setter,), {"args": a, "want": want})


A_, B_, N_, MOD, ST = S("$a"), S("$b"), S("$n"), S("$m"), None
RST = dict(lo=ZERO, hi=Lin.c(100), mod=ONE, inhigh=Lin.c(100))
ENTRIES = [("pt_update", Update), ("pt_update_fn", Mono), ("pt_inc", Inc), ("pt_inc1", Inc1), ("pt_inc_fn", Inc1), ("pt_mono", Mono),
           ("pt_status", setter(st=ST)), ("pt_show", setter(show=B_)), ("pt_reset", setter(**RST)), ("pt_bounds", setter("ab", lo=A_, hi=B_)), ("pt_mod", setter("m", mod=MOD)), ("pt_high", setter(inhigh=N_)),
           ("pt_chain", setter("ab", st=ST, lo=A_, hi=B_, inhigh=N_)), ("pt_chain2", setter("m", **dict(RST, mod=MOD, show=B_))), ("pt_chain3", setter(inhigh=N_, show=B_, st=ST)), ("pt_chain4", setter("ab", "m", **RST)), ("pt_local", setter(st=ST, inhigh=N_)),
           ("g_get", Get), ("g_active", Active), ("g_active_or", ActiveOr), ("g_activate", Activate), ("g_activate_ptr", ActivatePtr), ("g_clear", Clear), ("g_bars", Bars), ("g_print", Print)]


def run():
    c = Check("T03", "lockset over the shared members, critical sections with the published progress as a rational function, callbacks counted per change")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 30
    c.assumptions = ["floating point as exact reals", "callbacks return", "std::mutex, std::map, std::shared_ptr as the standard specifies"]
    m = c.module("progress.cc", "keep_prog.txt")
    c.par([lambda e=e, k=k: c.analyse(m, e, k, budget=60, confirm_s=20) for e, k in ENTRIES if not only or e in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
