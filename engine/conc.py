"""Thread-modular analysis: every spawned thread body is analysed on its own
against the shared memory of its creator; cells written while threads run are
unstable outside locks; accesses are collected for the race rule."""
from ai import Monitor, Ptr, Lin, Fn, Agg, Cat, Tok, THROW, RInfo, PathEnd, AnalysisError, Bottom, ZERO, ONE, Frame, UNDEF
import models as M


def cellname(r, o):
    return (str(r), int(o.k) if o is not None and o.is_const() else None)


class Facts:
    """what the whole program does to shared cells (grows over the passes)"""

    def __init__(self):
        self.W = {}          # cell -> set of constants written by threads, or None (anything)
        self.A = {}          # the same, by threads or their creator
        self.rmw = set()     # cells that are tickets (atomic add)
        self.base = {}       # cell -> value when the first thread started
        self.acc = {}        # access records
        self.changed = False

    def wrote(self, cell, v, role="w"):
        if role != "main":
            self.wrote1(self.W, cell, v)
        self.wrote1(self.A, cell, v)

    def wrote1(self, W, cell, v):
        old = W.get(cell, frozenset())
        if old is None:
            return
        new = None if v is None or len(old) > 4 else old | {v}
        if new != old or cell not in W:
            W[cell] = new
            self.changed = True

    def written(self, role):
        """cells other threads may write, seen from a role"""
        return self.W if role == "main" else self.A


class Conc(Monitor):
    can_bound = True

    def __init__(self, F):
        self.F = F

    # ---- roles
    def role(self, s):
        return s.ghost.get("role", "main")

    def parallel(self, I, s):
        """other threads may touch shared memory now"""
        if self.role(s) != "main":
            return True
        sp, jo = s.ghost.get("spawned"), s.ghost.get("joined")
        if sp is None or s.ghost.get("phase", 0) == 2:
            return False
        if s.poly.entails_eq(sp - jo):
            if not s.poly.entails_eq(sp):
                self.all_joined(I, s)
            return False
        return True

    def all_joined(self, I, s):
        if s.ghost.get("phase") == 1:
            s.ghost["phase"] = 2
            for r in list(s.mem):
                if self.shared(s, r):
                    for o in list(s.mem[r]):
                        self.unstable(s, r, o)

    def unstable(self, s, r, o):
        W = self.F.written(self.role(s))
        if cellname(r, o) in W or (not o.is_const() and any(c[0] == str(r) for c in W)) or (str(r), None) in W:
            s.mem[r].pop(o, None)

    def shared(self, s, r):
        return r in s.ghost.get("shared", ())

    # ---- accesses
    def locks(self, s):
        return s.ghost.get("held", ())

    def held(self, s):
        return s.ghost.get("held", ())

    def record(self, I, s, ins, p, size, write, atomic):
        sz = size if isinstance(size, int) else (int(size.k) if isinstance(size, Lin) and s.poly.norm(size).is_const() else None)
        c = cellname(p.r, s.poly.norm(p.o))
        loc = tuple(map(tuple, I.full_loc(s, ins)[:4]))
        self.F.acc[(c, sz, self.role(s), write, atomic, frozenset(self.held(s)), loc)] = (s.trace, I)

    def on_access(self, I, s, ins, ptr, size, write):
        if not self.shared(s, ptr.r) or not self.parallel(I, s):
            return
        atomic = bool(ins and (ins.get("atomic") or ins["op"] in ("atomicrmw", "cmpxchg")))
        self.record(I, s, ins, ptr, size, write, atomic)
        o = s.poly.norm(ptr.o)
        if write:
            if not (ins and ins["op"] == "store"):
                self.F.wrote(cellname(ptr.r, o), None, self.role(s))
        else:
            # somebody else may have written it since it was last looked at
            if ptr.r in s.mem:
                for q in list(s.mem[ptr.r]):
                    if I.overlaps(s, q, s.mem[ptr.r][q][0], o, size if isinstance(size, int) else 8) and not self.guarded(s, cellname(ptr.r, q), atomic):
                        self.unstable(s, ptr.r, q)

    def on_store(self, I, s, ins, p, size, v):
        if self.shared(s, p.r) and self.parallel(I, s):
            n = s.poly.norm(v) if isinstance(v, Lin) else None
            c = cellname(p.r, s.poly.norm(p.o))
            if isinstance(v, Ptr):
                b = self.F.base.get(c)
                self.F.wrote(c, ("ptr", str(v.r)), self.role(s))
            else:
                self.F.wrote(c, int(n.k) if n is not None and n.is_const() else None, self.role(s))
            self.stored(I, s, ins, p, size, v)

    def stored(self, I, s, ins, p, size, v):
        pass

    def on_load(self, I, s, ins, p, size):
        """flags: one state per value the cell can have"""
        if not self.shared(s, p.r) or not ins.get("atomic") or not self.parallel(I, s):
            return None
        c = cellname(p.r, s.poly.norm(p.o))
        w = self.F.A.get(c)
        b = self.F.base.get(c)
        if w is None or not isinstance(b, Lin) or not b.is_const() or len(w) > 3 or any(not isinstance(x, int) for x in w):
            return None
        I.load(s, ins, p, size, ins["ty"])
        out = []
        for x in sorted(w | {int(b.k)}):
            t = s.copy()
            self.flag(I, t, ins, c, x, x != int(b.k))
            out.append((t, Lin.c(x)))
        return out

    def flag(self, I, s, ins, cell, v, changed):
        """a flag was read: refine s by what its writers guarantee"""

    def init_cell(self, I, s, region, off, size, ty):
        if self.shared(s, region) or s.ghost.get("phase") == 2:
            b = self.F.base.get(cellname(region, off))
            if isinstance(b, Ptr):
                w = self.F.A.get(cellname(region, off), frozenset())
                if w is not None and all(isinstance(x, tuple) and x[1] == str(b.r) for x in w):
                    n = I.fresh("n")
                    s.poly.add_ge(n)
                    return Ptr(b.r, b.o + n * self.stride(I, s, b.r))
            W = self.F.written(self.role(s))
            if cellname(region, off) in W or (str(region), None) in W or off is not None and not off.is_const():
                return I.fresh_ty(s, ty, size)
        return None

    def stride(self, I, s, r):
        return max(1, I.rinf(s, r).es)

    def lifetime(self, I, s, ins, r, start):
        if not start and self.shared(s, r) and self.parallel(I, s):
            self.record(I, s, ins, Ptr(r), I.rinf(s, r).size, True, False)

    def settle(self):
        """after a warm-up pass: facts for the next one"""

    # ---- the race rule
    def finish(self, I):
        from ai import Violation
        seen = set()
        acc = list(self.F.acc.items())
        for (c, sz, ro, wr, at, hl, loc), (tr, _) in acc:
            if not wr:
                continue
            I.obl += 1
            I.oblsites.add(("race", loc[:2]))
            bad = None
            for (c2, sz2, ro2, wr2, at2, hl2, loc2), _ in acc:
                if c2[0] != c[0] or (at and at2) or not self.concurrent(ro, ro2):
                    continue
                if c[1] is not None and c2[1] is not None and sz is not None and sz2 is not None:
                    if c[1] + sz <= c2[1] or c2[1] + sz2 <= c[1]:
                        continue
                elif not self.mayalias(c, c2):
                    continue
                if any(n == n2 and "w" in (x, x2) for n, x in hl for n2, x2 in hl2):
                    continue
                bad = loc2, wr2
                break
            if bad is None:
                I.dis += 1
                continue
            k = (loc[:1], bad[0][:1])
            if k in seen:
                continue
            seen.add(k)
            I.violations.append(Violation("race", "unsynchronised %s here and %s at %s:%s without a common lock" % (
                "atomic write" if at else "write (or end of lifetime)", "write" if bad[1] else "read", bad[0][0][0] if bad[0] else "?", bad[0][0][1] if bad[0] else "?"), list(map(list, loc)), tr, False))

    def concurrent(self, a, b):
        return not (a == "main" and b == "main")

    def mayalias(self, c, c2):
        return True

    # ---- library calls
    def lockname(self, I, s, p):
        if isinstance(p, Ptr):
            return "%s+%s" % (p.r, s.poly.norm(p.o))
        return "?%s" % (p,)

    def acquire(self, I, s, ins, p, mode="w"):
        l = self.lockname(I, s, p)
        I.need(s, None if any(h[0] == l for h in self.held(s)) else True, "self-deadlock", "a lock is taken that is already held", ins)
        if self.role(s) != "main" and isinstance(p, Ptr) and not self.shared(s, p.r) and not str(p.r).startswith("g:"):
            l, mode = l + " (private)", "p"      # protects nothing from other threads
        self.forget(I, s)
        s.ghost["held"] = tuple(sorted(self.locks(s) + ((l, mode),)))
        s.ev("lock", l)

    def release(self, I, s, ins, p):
        l = self.lockname(I, s, p)
        if any(h[0] == l + " (private)" for h in self.held(s)):
            l += " (private)"
        I.need(s, True if any(h[0] == l for h in self.held(s)) else None, "unlock", "a lock is released that is not held", ins)
        s.ghost["held"] = tuple(h for h in self.locks(s) if h[0] != l)
        s.ev("unlock", l)

    def forget(self, I, s):
        """other threads ran: unstable cells are unknown again"""
        if self.parallel(I, s):
            for r in list(s.mem):
                if self.shared(s, r):
                    for o in list(s.mem[r]):
                        if not self.kept(s, cellname(r, o)):
                            self.unstable(s, r, o)

    def guarded(self, s, cell, atomic):
        """no other thread can write the cell between two looks at it"""
        return not atomic and bool(self.held(s))

    def kept(self, s, cell):
        """no other thread could write the cell while a lock was taken"""
        return False

    def wait(self, I, s, ins, mtx):
        pass

    def call(self, I, s, ins, name, dem, args):
        if name == "pthread_mutex_lock":
            self.acquire(I, s, ins, args[0])
            return [(s, ZERO)]
        if name == "pthread_mutex_trylock":
            t = s.copy()
            self.acquire(I, s, ins, args[0])
            return [(s, ZERO), (t, Lin.c(16))]
        if name == "pthread_mutex_unlock":
            self.release(I, s, ins, args[0])
            return [(s, ZERO)]
        if name in ("pthread_rwlock_wrlock", "pthread_rwlock_rdlock"):
            self.acquire(I, s, ins, args[0], "w" if name.endswith("wrlock") else "r")
            return [(s, ZERO)]
        if name == "pthread_rwlock_unlock":
            self.release(I, s, ins, args[0])
            return [(s, ZERO)]
        if name == "_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE":
            m = I.load(s, ins, args[1], 8, "ptr")
            l = self.lockname(I, s, m)
            I.need(s, True if any(h[0] == l for h in self.held(s)) else None, "wait-locked", "waits on a condition without holding its lock", ins)
            self.on_wait(I, s, ins, args[0], l)
            s.ghost["held"] = tuple(h for h in self.locks(s) if h[0] != l)
            self.forget(I, s)
            s.ghost["held"] = tuple(sorted(self.locks(s) + ((l, "w"),)))
            return [(s, None)]
        if name in ("_ZNSt18condition_variable10notify_allEv", "_ZNSt18condition_variable10notify_oneEv"):
            self.on_notify(I, s, ins, args[0], "all" in name)
            return [(s, None)]
        if name == "_ZNSt6thread20hardware_concurrencyEv":
            s.poly.add_ge(Lin.sym("$hw"))
            s.poly.add_ge(Lin.c(1 << 20) - Lin.sym("$hw"))
            return [(s, Lin.sym("$hw"))]
        if name == "_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE":
            return self.spawn(I, s, ins, args)
        if name == "_ZNSt6thread4joinEv":
            return self.join(I, s, ins, args)
        if name == "_ZNSt6thread6detachEv":
            I.fail(s, "detached", "a thread is detached: nothing waits for it", ins)
        if name == "vm_alloc":
            es = int(s.poly.norm(args[0]).k)
            base, k = "V:%d" % ins["id"], 0
            while (base, k) in s.rinfo and s.rinfo[(base, k)].alive:
                k += 1
            r = (base, k)
            s.rinfo[r] = RInfo(None, "vec", es=es)
            s.mem.pop(r, None)
            return [(s, Ptr(r))]
        if name == "vm_room":
            return self.room(I, s, ins, args)
        if name == "vm_free":
            p = args[0]
            if isinstance(p, Ptr):
                if self.shared(s, p.r) and self.parallel(I, s):
                    self.record(I, s, ins, Ptr(p.r), None, True, False)
                s.rinfo[p.r] = I.rinf(s, p.r).copy(alive=False)
                s.mem.pop(p.r, None)
            return [(s, None)]
        if name in ("_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv",
                    "_ZNSt6thread6_StateD2Ev", "_ZNSt18condition_variableC1Ev", "_ZNSt18condition_variableD1Ev"):
            return [(s, None)]
        if name.startswith("@atomicrmw") or name.startswith("@cmpxchg"):
            return self.rmw(I, s, ins, name, args)
        h = getattr(self, "c_" + name, None)
        if h is not None:
            r = h(I, s, ins, args)
            return [(s, None)] if r is None else r
        return None

    def on_wait(self, I, s, ins, cv, l):
        pass

    def on_notify(self, I, s, ins, cv, al):
        pass

    def room(self, I, s, ins, args):
        return [(s, None)]

    def rmw(self, I, s, ins, name, args):
        return None

    # ---- threads
    def spawn(self, I, s, ins, args):
        st = I.load(s, ins, args[1], 8, "ptr")
        vt = I.load(s, ins, st, 8, "ptr")
        if not isinstance(st, Ptr) or not isinstance(vt, Ptr):
            raise AnalysisError("thread start: closure not found")
        slot = I.m.flat(vt.r[2:]).get(int(s.poly.norm(vt.o).k) + 16)
        fn = I.val(s, slot[1]) if slot else None
        if not isinstance(fn, Fn):
            raise AnalysisError("thread start: body not found")
        # what the closure reaches is shared from now on
        reach, todo = set(), [st.r]
        while todo:
            r = todo.pop()
            for _, (_, v) in s.mem.get(r, {}).items():
                for q in regions(v):
                    if q not in reach and q != st.r and not (isinstance(q, str) and q.startswith("g:") and I.m.globals.get(q[2:], {}).get("const")):
                        reach.add(q)
                        todo.append(q)
        s.ghost["shared"] = frozenset(s.ghost.get("shared", ())) | reach
        if s.ghost.get("spawned") is None:
            s.ghost["spawned"] = s.ghost["joined"] = ZERO
            s.ghost["jset"] = frozenset()
        if s.poly.entails_eq(s.ghost["spawned"]):
            for r in reach:
                for o, (_, v) in s.mem.get(r, {}).items():
                    self.F.base.setdefault(cellname(r, o), self.plain(s, v))
            self.first_spawn(I, s, ins)
        s.ghost["spawned"] = s.ghost["spawned"] + 1
        s.ghost["phase"] = 1
        t = s.copy()
        I.write(s, args[1], 8, ZERO)
        s.mem.pop(st.r, None)
        s.rinfo.pop(st.r, None)
        # the new thread
        f = I.m.funcs[fn.name].prep()
        fr = Frame(f, 0)
        fr.regs[f.args[0]["id"]] = st
        t.frames = [fr]
        t.exc = None
        t.visits = {}
        for k in ("spawned", "joined", "jset"):
            t.ghost.pop(k, None)
        t.ghost["role"] = "w"
        t.ghost["held"] = ()
        t.ghost["phase"] = 1
        for r in list(t.mem):
            if self.shared(t, r):
                for o in list(t.mem[r]):
                    self.unstable(t, r, o)
        self.thread_start(I, t)
        I.visited.add((f.name, 0))
        return [(s, None), (t, "entered")]

    def plain(self, s, v):
        if isinstance(v, Lin):
            return s.poly.norm(v)
        if isinstance(v, Ptr):
            o = s.poly.norm(v.o)
            return Ptr(v.r, o if o.is_const() else ZERO)
        return v

    def first_spawn(self, I, s, ins):
        pass

    def thread_start(self, I, s):
        pass

    def join(self, I, s, ins, args):
        p = args[0]
        if self.role(s) != "main" or not isinstance(p, Ptr) or s.ghost.get("joined") is None:
            return [(s, None)]
        I.need(s, True if not self.held(s) or not self.join_locks(s) else None, "join-locked", "joins a thread while holding a lock the thread takes", ins)
        j = s.ghost["joined"]
        inf = I.rinf(s, p.r)
        idx = s.poly.norm(p.o).divexact(8)
        if inf.kind == "alloca":
            key = (str(p.r), repr(idx))
        else:
            key = ("V", repr(idx))
        if I.mode == "fix":
            if inf.kind == "alloca":
                I.need(s, key not in s.ghost["jset"] or None, "join-once", "a thread is joined twice", ins)
            else:
                I.need_eq(s, idx, j, "join-each", "every thread must be joined: next one to join", ins)
        else:
            I.need(s, key not in s.ghost["jset"] or None, "join-once", "a thread is joined twice", ins)
        if inf.kind == "alloca" or I.mode != "fix":
            s.ghost["jset"] = s.ghost["jset"] | {key}
        s.ghost["joined"] = j + 1
        s.ev("join", idx)
        return [(s, None)]

    def join_locks(self, s):
        return True


def regions(v):
    if isinstance(v, Ptr):
        yield v.r
    elif isinstance(v, Agg):
        for x in v.v:
            yield from regions(x)
    elif isinstance(v, Cat):
        for x in v.v:
            yield from regions(x[2])


def saturate(mod, entry, factory, models=(M.runtime,), budget=60, **kw):
    """passes until the set of unstable cells no longer grows"""
    from ai import Interp
    for _ in range(8):
        mon = factory()
        mon.F.changed = False
        mon.F.acc = {}
        I = Interp(mod, mon, models, mode="fix", budget_s=budget, **kw)
        mon.I = I
        I.soft = True
        I.run(entry, mon.bind)
        if I.truncated:
            raise AnalysisError("%s: warm-up pass ran out of budget" % entry)
        mon.settle()
        if not mon.F.changed:
            return
    raise AnalysisError("%s: shared writes do not stabilise" % entry)
