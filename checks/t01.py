#!/usr/bin/env python3
"""T01 thread_pool: every posted job once, execute waits for all of them."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from conc import *
from ai import Violation

SIZE = 4096


class Pool(Conc):
    """F.ticket: the cell job numbers come from; F.act: the cell workers add
    themselves to while they work; F.stop: the cell the destructor raises.
    The pseudo lock "S" is held shared by a worker while it is counted in
    F.act and exclusively by the caller while it holds the lock and has seen
    that nobody is counted."""

    def bind(self, I, s, f):
        s.poly.add_ge(Lin.sym("$hw"))
        f.regs[f.fn.args[0]["id"]] = Ptr("P")
        s.rinfo["P"] = RInfo(Lin.c(SIZE), "ext")
        s.ghost.update(ph="ctor")
        F = self.F
        for k in ("ticket", "act", "stop", "fn", "jobs"):
            if not hasattr(F, k):
                setattr(F, k, None)
        if not hasattr(F, "guard"):
            F.guard = None

    def bound(self, I, s, n):
        self.lim = n
        return I.assume_ge(s, Lin.c(max(n, 1)) - Lin.sym("$hw"))

    def slice_unroll(self, k):
        return k + 2

    # ---- pseudo lock and guards
    def locked(self, s):
        return any(h[1] == "w" for h in s.ghost.get("held", ()))

    def held(self, s):
        h = s.ghost.get("held", ())
        if self.role(s) == "w":
            if s.ghost.get("own"):
                h += (("S", "r"),)
        elif self.locked(s) and "Acur" in s.ghost and s.poly.entails_eq(s.ghost["Acur"]):
            h += (("S", "w"),)
        return h

    def guarded(self, s, cell, atomic):
        hs = self.held(s)
        if self.F.guard is None:
            return bool(hs)
        g = self.F.guard.get((cell, self.role(s)))
        if g is None:
            return bool(hs)     # nobody else writes it
        return any(l == l2 and "w" in (m, m2) for l, m in hs for l2, m2 in g)

    def kept(self, s, cell):
        return self.F.guard is not None and self.guarded(s, cell, True)

    def settle(self):
        F = self.F
        g = {}
        for (c, sz, ro, wr, at, hl, loc) in F.acc:
            if not wr:
                continue
            for me in ("main", "w"):
                if me == "main" and ro == "main":
                    continue
                k = (c, me)
                g[k] = g[k] & hl if k in g else frozenset(hl)
        if F.guard != g:
            F.changed = True
            F.guard = g

    # ---- loads and stores of shared cells
    def on_load(self, I, s, ins, p, size):
        if not self.shared(s, p.r) or not self.parallel(I, s) or ins.get("ty") == "ptr":
            return None
        F, G = self.F, s.ghost
        c = cellname(p.r, s.poly.norm(p.o))
        v = I.load(s, ins, p, size, ins["ty"])
        if c in (F.ticket, F.act) and isinstance(v, Lin):
            s.poly.add_ge(v)
            if c == F.ticket:
                G["Cv"] = v
            else:
                if self.locked(s):
                    G["Acur"] = v
                if self.role(s) == "main":
                    G["Ap"] = v
                    G.pop("Cp", None)
                    if "Cv" in G:
                        G["Cp"] = G["Cv"]
            return [(s, v)]
        if c == F.jobs and isinstance(v, Lin):
            s.poly.add_ge(v)
        w = F.A.get(c)
        b = F.base.get(c)
        if w and isinstance(b, Lin) and b.is_const() and len(w) <= 3 and all(isinstance(x, int) for x in w):
            out = []
            for x in sorted(w | {int(b.k)}):
                t = s.copy()
                if isinstance(v, Lin) and not I.assume_eq(t, v - x):
                    continue
                if c == F.stop and self.role(t) == "w":
                    if x != int(b.k):
                        t.ghost["stop"] = 1
                    elif self.locked(t):
                        t.ghost["nostop"] = 1
                out.append((t, Lin.c(x)))
            return out
        return [(s, v)]

    def on_access(self, I, s, ins, ptr, size, write):
        if write and ins and ins["op"] == "store" and self.shared(s, ptr.r) and self.parallel(I, s):
            x = I.find_cell(s, ptr.r, s.poly.norm(ptr.o), size)
            self.prev = x
        super().on_access(I, s, ins, ptr, size, write)

    def stored(self, I, s, ins, p, size, v):
        F, G = self.F, s.ghost
        c = cellname(p.r, s.poly.norm(p.o))
        if self.role(s) == "w":
            d = s.poly.norm(v - self.prev) if isinstance(v, Lin) and isinstance(self.prev, Lin) else None
            if d is not None and d.is_const() and abs(d.k) == 1:
                self.bump(I, s, ins, p, size, c, self.prev, int(d.k), False)
            elif c in (F.ticket, F.act):
                I.need(s, None, "count", "a worker overwrites a shared counter", ins)
            return
        if G["ph"] == "exec":
            if isinstance(v, Lin) and "n" in G and s.poly.norm(v - G["n"]).is_const() and not s.poly.norm(v).is_const():
                if F.jobs != c:
                    F.jobs, F.changed = c, True
            elif isinstance(v, Fn):
                if F.fn != c:
                    F.fn, F.changed = c, True
            if c == F.jobs or c == F.ticket or c == F.fn:
                I.need(s, True if ("S", "w") in self.held(s) else None, "post", "work is posted without holding the lock and knowing that no worker is active", ins)
                G["post"] = 1
                G["note"] = 0
                G.pop("Cv", None)
                s.ev("post", v)
            if c == F.act:
                I.need(s, True if isinstance(v, Lin) and s.poly.entails_eq(v) and ("S", "w") in self.held(s) else None, "count", "the caller changes the number of active workers", ins)
        elif G["ph"] == "dtor" and isinstance(v, Lin):
            b = F.base.get(c)
            n = s.poly.norm(v)
            if isinstance(b, Lin) and n.is_const() and n != b:
                if F.stop is None:
                    F.stop, F.changed = c, True
                if c == F.stop:
                    I.need(s, True if self.locked(s) else None, "stop-locked", "the stop flag is raised without the lock: a worker about to sleep misses it", ins)
                    G["stopset"] = 1
                    G["note"] = 0

    def rmw(self, I, s, ins, name, args):
        p = args[0]
        if not isinstance(p, Ptr) or not self.shared(s, p.r) or not self.parallel(I, s):
            return None
        op = ins.get("rmw")
        c = cellname(p.r, s.poly.norm(p.o))
        k = s.poly.norm(args[1]) if isinstance(args[1], Lin) else None
        if op == "xchg":
            self.prev = I.find_cell(s, p.r, s.poly.norm(p.o), ins["sz"])
            old = I.load(s, ins, p, ins["sz"], ins["ty"])
            self.record(I, s, ins, p, ins["sz"], True, True)
            I.write(s, p, ins["sz"], args[1])
            self.on_store(I, s, ins, p, ins["sz"], args[1])
            return [(s, old)]
        self.record(I, s, ins, p, ins["sz"], True, True)
        self.F.wrote(c, None, self.role(s))
        if op not in ("add", "sub") or k is None or not k.is_const() or self.role(s) != "w":
            return None
        d = int(k.k) if op == "add" else -int(k.k)
        old = None
        if self.guarded(s, c, True):
            old = I.find_cell(s, p.r, s.poly.norm(p.o), ins["sz"])
        if not isinstance(old, Lin):
            old = I.fresh("t")
            s.poly.add_ge(old)
        return self.bump(I, s, ins, p, ins["sz"], c, old, d, True)

    def bump(self, I, s, ins, p, sz, c, old, d, atomic):
        """a worker adds d to a shared counter (atomically, or under the lock)"""
        F, G = self.F, s.ghost
        if F.ticket is None:
            # discovery: remember which cell the number came from
            G["from"] = c
            G["num"] = old
            s.mem.get(p.r, {}).pop(s.poly.norm(p.o), None)
            return [(s, old)]
        if c == F.ticket:
            I.need(s, True if atomic or self.locked(s) else None, "ticket", "job numbers are taken in two steps: two threads can take the same one", ins)
            self.settled(I, s, ins, "takes another job")
            I.need(s, True if G.get("own") else None, "inactive", "takes a job while not counted as active: execute does not wait for it", ins)
            I.need(s, True if d > 0 else None, "ticket", "the job counter goes down", ins)
            if sz < 8:
                F.narrow = tuple(map(tuple, I.full_loc(s, ins)[:4])), s.trace, sz
            if "hi" in G:
                s.poly.add_ge(old - G["hi"])
            s.poly.add_ge(old)
            G["lo"], G["hi"] = old, old + d
            s.ev("take", old)
            s.mem.get(p.r, {}).pop(s.poly.norm(p.o), None)
            return [(s, old)]
        if F.act is None and d == 1:
            F.act, F.changed = c, True
        if c == F.act:
            I.need(s, True if self.locked(s) else None, "active-locked", "the number of active workers is changed without the lock", ins)
            if d == 1:
                I.need(s, True if not G.get("own") else None, "active-count", "a worker counts itself twice", ins)
                cv, j = G.get("Cv"), self.jobs(I, s)
                I.need(s, True if cv is not None and j is not None and s.poly.entails_ge(j - cv - 1) else None, "active-idle", "a worker becomes active although no work may be left: a later execute is refused", ins)
                G["own"] = 1
                G["lo"] = G["hi"] = ZERO
                s.ev("active")
            elif d == -1:
                I.need(s, True if G.get("own") else None, "active-count", "a worker that is not counted takes itself off", ins)
                self.settled(I, s, ins, "stops being active")
                self.drained(I, s, ins, "stops being active")
                G["own"] = 0
                G["owe"] = 1
                G["Anew"] = old - 1
                G.pop("lo", None)
                G.pop("hi", None)
                s.ev("inactive")
            else:
                I.need(s, None, "active-count", "the number of active workers changes by %d" % d, ins)
            if atomic:
                I.write(s, p, sz, old + d)
        return [(s, old)]

    def owes(self, s):
        """the caller may be waiting for this worker's last change to be announced"""
        G = s.ghost
        return G.get("owe") and not ("Anew" in G and s.poly.entails_ge(G["Anew"] - 1))

    def jobs(self, I, s):
        c = self.F.jobs
        if c is None:
            return None
        for r in s.mem:
            if str(r) == c[0]:
                v = I.find_cell(s, r, Lin.c(c[1]), 8)
                if isinstance(v, Lin):
                    return v
        return None

    def settled(self, I, s, ins, what):
        G = s.ghost
        if "lo" not in G:
            return
        j = self.jobs(I, s)
        ok = s.poly.entails_ge(G["lo"] - G["hi"]) or (j is not None and s.poly.entails_ge(G["lo"] - j))
        I.need(s, True if ok else None, "job-lost", "%s although job %s was taken and not run" % (what, I.show(s, G["lo"])), ins)

    def drained(self, I, s, ins, what):
        G = s.ghost
        j = self.jobs(I, s)
        I.need(s, True if "hi" in G and j is not None and s.poly.entails_ge(G["hi"] - 1 - j) else None, "jobs-left", "a worker %s although jobs may be left" % what, ins)

    # ---- what a worker can rely on
    def init_cell(self, I, s, region, off, size, ty):
        F = self.F
        if self.role(s) == "w" and self.shared(s, region):
            c = cellname(region, off)
            if c == F.fn and ty == "ptr":
                w = F.A.get(c)
                fns = [x for x in w if isinstance(x, tuple) and x[0] == "fn"] if w else []
                G = s.ghost
                # a job number below the number of jobs was taken: work was posted
                j = self.jobs(I, s)
                ok = G.get("own") and "hi" in G and j is not None and s.poly.entails_ge(j - G["hi"])
                if fns and (ok or F.ticket is None):
                    return Fn(sorted(fns)[0][1])     # any of them: the posting side checks which
        return super().init_cell(I, s, region, off, size, ty)

    def on_store(self, I, s, ins, p, size, v):
        if isinstance(v, Fn) and self.shared(s, p.r) and self.parallel(I, s):
            self.F.wrote(cellname(p.r, s.poly.norm(p.o)), ("fn", v.name), self.role(s))
            self.stored(I, s, ins, p, size, v)
            return
        super().on_store(I, s, ins, p, size, v)

    # ---- callbacks
    def c_job(self, I, s, ins, args):
        G, F = s.ghost, self.F
        I.need(s, True if self.role(s) == "w" else None, "job-once", "a job runs outside a worker thread", ins)
        I.need(s, None if self.locked(s) else True, "job-locked", "a job runs while the lock is held", ins)
        I.need(s, True if G.get("init") or not self.init else None, "initializer", "a job runs before the thread's initializer", ins)
        if F.ticket is None:
            if "num" in G and isinstance(args[0], Lin) and s.poly.norm(args[0] - G["num"]).is_const():
                F.ticket, F.changed = G["from"], True
            return None
        idx = args[0]
        ok = "lo" in G and s.poly.entails_eq(idx - G["lo"]) and s.poly.entails_ge(G["hi"] - idx - 1)
        I.need(s, True if ok else None, "job-once", "job %s runs although this thread did not take exactly that number" % I.show(s, idx), ins)
        j = self.jobs(I, s)
        I.need(s, True if j is not None and s.poly.entails_ge(j - idx - 1) else None, "job-range", "job %s runs although it may be beyond the last job" % I.show(s, idx), ins)
        if "lo" in G:
            G["lo"] = idx + 1
        s.ev("job", idx)
        return None

    def c_job2(self, I, s, ins, args):
        return None

    def c_pool_init(self, I, s, ins, args):
        I.need(s, True if self.role(s) == "w" and not s.ghost.get("init") else None, "initializer", "the initializer runs twice in a thread, or outside one", ins)
        s.ghost["init"] = 1
        return None

    def c_pool_fin(self, I, s, ins, args):
        I.need(s, True if self.role(s) == "w" and not s.ghost.get("fin") else None, "finalizer", "the finalizer runs twice in a thread, or outside one", ins)
        I.need(s, None if s.ghost.get("own") or self.locked(s) else True, "finalizer", "the finalizer runs while the worker is active or holds the lock", ins)
        s.ghost["fin"] = 1
        return None

    def c_count(self, I, s, ins, args):
        n = I.fresh("n")
        s.poly.add_ge(n)
        if I.mode != "fix":
            s.poly.add_ge(self.lim - n)
        return [(s, n)]

    def c_more(self, I, s, ins, args):
        t = s.copy()
        return [(s, ONE), (t, ZERO)]

    def c_exec_begin(self, I, s, ins, args):
        f = I.find_cell(s, args[1].r, s.poly.norm(args[1].o) + 8, 8)
        s.ghost.update(ph="exec", n=args[0], post=0, note=0, f=f.name)
        for k in ("Cv", "Ah", "Ch", "Ap", "Cp", "Acur"):
            s.ghost.pop(k, None)
        return None

    def c_exec_done(self, I, s, ins, args):
        G = s.ghost
        I.need(s, None if self.locked(s) else True, "unlock", "execute returns with the lock held", ins)
        for t, zero in I.split_eq(s, G["n"]):
            if zero:
                continue
            j = G["n"]
            I.need(t, True if G["post"] else None, "not-posted", "execute returns although the jobs were never handed to the workers", ins)
            if "Ap" in G and "Cp" in G and t.poly.entails_eq(G["Ap"]) and t.poly.entails_ge(G["Cp"] - j):
                continue        # first everything was taken, then nobody was active
            I.need(t, True if "Ah" in G and t.poly.entails_eq(G["Ah"]) else None, "execute-early", "execute returns without having seen under the lock that no worker is active", ins)
            I.need(t, True if "Ch" in G and t.poly.entails_ge(G["Ch"] - j) else None, "execute-early", "execute returns without having seen that all jobs were taken (not later than it saw that no worker is active)", ins)
        G["ph"] = "idle"
        for k in ("Cv", "Ah", "Ch", "Ap", "Cp", "Acur", "n", "f"):
            G.pop(k, None)
        return None

    def c_dtor_begin(self, I, s, ins, args):
        s.ghost.update(ph="dtor", note=0, stopset=0)
        return None

    def c_dtor_done(self, I, s, ins, args):
        I.need(s, None if self.parallel(I, s) else True, "join-all", "the destructor returns while workers may still run", ins)
        s.ghost["ph"] = "done"
        return None

    # ---- locks and conditions
    def acquire(self, I, s, ins, p, mode="w"):
        super().acquire(I, s, ins, p, mode)
        for k in ("nostop", "Acur"):
            s.ghost.pop(k, None)
        if self.role(s) == "w":
            s.ghost.pop("Cv", None)

    def endhold(self, I, s, ins):
        G, F = s.ghost, self.F
        if self.role(s) == "main" and G["ph"] == "exec":
            if "Acur" in G:
                G["Ah"] = G["Acur"]
                if "Cv" in G:
                    G["Ch"] = G["Cv"]
                else:
                    G.pop("Ch", None)
            if G.get("post") == 1:
                j, c, f = (self.cell(I, s, x) for x in (F.jobs, F.ticket, F.fn))
                I.need(s, True if isinstance(j, Lin) and s.poly.entails_eq(j - G["n"]) else None, "post", "the lock is released with only part of the work posted: the number of jobs", ins)
                I.need(s, True if isinstance(c, Lin) and s.poly.entails_eq(c) else None, "post", "the lock is released with only part of the work posted: the counter is not back at the first job", ins)
                I.need(s, True if isinstance(f, Fn) and f.name == G["f"] else None, "post", "the lock is released with only part of the work posted: the function", ins)
                G["post"] = 2
                for k in ("Ah", "Ch", "Ap", "Cp"):
                    G.pop(k, None)
        for k in ("nostop", "Acur"):
            G.pop(k, None)
        if self.role(s) == "w":
            G.pop("Cv", None)

    def cell(self, I, s, c):
        if c is None:
            return None
        for r in s.mem:
            if str(r) == c[0]:
                return I.find_cell(s, r, Lin.c(c[1]), 8)
        return None

    def release(self, I, s, ins, p):
        self.endhold(I, s, ins)
        super().release(I, s, ins, p)

    def on_wait(self, I, s, ins, cv, l):
        G, F = s.ghost, self.F
        if self.role(s) == "w":
            I.need(s, None if G.get("own") else True, "wait-active", "a worker sleeps while it is counted as active", ins)
            I.need(s, None if self.owes(s) else True, "notify", "a worker sleeps and has not told the caller that it became inactive", ins)
            I.need(s, True if G.get("nostop") or F.stop is None else None, "wait-stop", "a worker sleeps without having seen, under this lock, that it should not stop", ins)
            j = self.jobs(I, s)
            I.need(s, True if "Cv" in G and j is not None and s.poly.entails_ge(G["Cv"] - j) else None, "wait-work", "a worker sleeps without having seen, under this lock, that no work is left", ins)
        elif G["ph"] == "exec":
            sp = G.get("spawned")
            I.need(s, True if sp is not None and s.poly.entails_ge(sp - 1) else None, "no-thread", "execute waits although no worker was started", ins)
            I.need(s, True if G.get("post") and G.get("note") else None, "notify", "execute waits without having woken the workers after posting the jobs", ins)
            ok = "Acur" in G and s.poly.entails_ge(G["Acur"] - 1) or "Cv" in G and s.poly.entails_ge(G["n"] - G["Cv"] - 1)
            I.need(s, True if ok else None, "wait-done", "execute sleeps although all jobs may be done: nobody wakes it again", ins)
        self.endhold(I, s, ins)

    def on_notify(self, I, s, ins, cv, al):
        G = s.ghost
        if self.role(s) == "w":
            if al:
                G["owe"] = 0
                G.pop("Anew", None)
        elif G["ph"] == "exec":
            if G.get("post"):
                G["note"] = 1
        elif al and G.get("stopset"):
            G["note"] = 1

    def join(self, I, s, ins, args):
        G = s.ghost
        if self.role(s) == "main" and G["ph"] == "dtor":
            I.need(s, True if G.get("stopset") and G.get("note") else None, "join-stop", "waits for a worker that was not told to stop (flag raised, then everybody woken)", ins)
        return super().join(I, s, ins, args)

    def join_locks(self, s):
        return True

    def thread_start(self, I, s):
        for k in ("ph", "n", "f", "post", "note", "stopset", "Acur", "Ah", "Ch", "Ap", "Cp", "Cv"):
            s.ghost.pop(k, None)
        s.ghost.update(own=0, owe=0)

    # ---- exits
    def exit(self, I, s, kind, val):
        G = s.ghost
        if self.role(s) == "w":
            I.need(s, kind == "return" or None, "escape", "an exception leaves the thread function")
            I.need(s, None if self.locked(s) else True, "locked-exit", "the thread ends while holding a lock")
            I.need(s, None if G.get("own") else True, "active-count", "the thread ends while counted as active")
            I.need(s, None if self.owes(s) else True, "notify", "the thread ends and has not told the caller that it became inactive")
            I.need(s, True if G.get("stop") or self.F.stop is None else None, "exit-early", "a worker ends without having seen the stop flag: later jobs may have no worker")
            if self.init:
                I.need(s, True if G.get("init") and G.get("fin") else None, "finalizer", "the thread ends without having run its initializer and finalizer")
            return
        if kind == "throw":
            I.need(s, True if G["ph"] == "exec" and "Ah" in G and s.poly.entails_ge(G["Ah"] - 1) else None, "throw", "throws although no worker was seen to be active")
            return
        I.need(s, G["ph"] == "done" or None, "join-all", "ends early")

    init = True

    def finish(self, I):
        super().finish(I)
        F = self.F
        I.obl += 1
        n = getattr(F, "narrow", None)
        if n is None:
            I.dis += 1
        else:
            I.violations.append(Violation("ticket-width", "the shared job counter has only %d bits" % (8 * n[2]), list(map(list, n[0])), n[1], False))


def entry(c, m, e, need, **at):
    F = Facts()

    def make():
        x = Pool(F)
        for k, v in at.items():
            setattr(x, k, v)
        return x
    if m is None:
        c.analyse(m, e, make)
        return
    try:
        saturate(m, e, make)
        miss = [k for k in need if getattr(F, k) is None]
        if miss:
            raise AnalysisError("%s: not recognised: %s" % (e, ", ".join(miss)))
    except AnalysisError as ex:
        if "not found" in str(ex):
            raise
        c.res.entries.append(dict(entry=e, proved=False, unproved=[str(ex)]))
        c.res.unproved.append(e)
        return

    def make2():
        F.acc = {}
        return make()
    c.analyse(m, e, make2)
    if c.res.entries:
        c.res.entries[-1]["shared_cells"] = ["%s+%s" % k for k in sorted(F.W, key=str)]
        c.res.entries[-1]["roles"] = {k: str(getattr(F, k)) for k in ("ticket", "act", "stop", "fn", "jobs")}
        c.res.entries[-1]["guards"] = {"%s+%s/%s" % (k[0] + (k[1],)): sorted(map(list, v)) for k, v in F.guard.items()}


def run():
    c = Check("T01", "thread-modular monitor automaton (posting, waking, working, waiting, stopping) with lock-guard inference and lockset race rule over all shared cells")
    c.min_sites = 25
    c.assumptions = ["starting a thread succeeds", "one thread calls execute and the destructor at a time", "jobs, initializer and finalizer do not throw", "fewer than 2^63 jobs"]
    m = c.module("pool.cc", keep="keep_par.txt", extra=("-I" + os.path.join(VERIF, "stubs", "std"),))
    c.par([lambda: entry(c, m, "tp_all", ("ticket", "act", "stop", "fn", "jobs")),
           lambda: entry(c, m, "tp_default", ("ticket", "act", "stop", "fn", "jobs"), init=False)])
    return c.finish()


if __name__ == "__main__":
    main(run)
