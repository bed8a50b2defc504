#!/usr/bin/env python3
"""T02 parallel_for: every job once, all threads joined, failures reported."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from conc import *
from ai import Violation

QUIT = 1
EXC = Tok("exc:cur")


class Par(Conc):
    """tickets: [lo, hi) are the job numbers this thread took and has not run"""
    strat = None          # symbol of the strategy argument; None: default (quit)
    coll = False

    def bind(self, I, s, f):
        N = S("$NA")
        s.poly.add_ge(N)
        self.N = N
        for a in f.fn.args:
            n, v = a["name"], None
            if n == "n":
                v = N
            elif n == "a":
                v = Ptr("A")
            elif n == "ae":
                v = Ptr("A", N * ES)
            elif n == "st":
                v = S("$st")
                s.poly.add_ge(v)
                s.poly.add_ge(1 - v)
            elif n == "mod":
                v = S("$mod")
                s.poly.add_ge(v - 1)
            elif n == "desc":
                v = Ptr("desc")
                s.rinfo["desc"] = RInfo(Lin.c(32), "ext")
            elif n == "out":
                v = Ptr("out")
            f.regs[a["id"]] = v
        s.rinfo["A"] = RInfo(N * ES, "input", es=ES)
        s.rinfo["out"] = RInfo(Lin.c(16), "ext")
        s.ghost.update(lo=ZERO, hi=ZERO, ran=ONE * 0 - 1, pend=0, fail=0, stop=0, seen=0, up=0)

    def bound(self, I, s, n):
        return I.assume_ge(s, Lin.c(n) - self.N) and I.assume_ge(s, Lin.c(max(n, 1)) - Lin.sym("$hw"))

    # ---- strategy
    def quitting(self, s):
        if not self.coll:
            return True
        return s.poly.entails_eq(S("$st") - QUIT)

    # ---- tickets
    def first_spawn(self, I, s, ins):
        for r in s.mem:
            for o, (sz, v) in s.mem[r].items():
                if cellname(r, o) in self.F.rmw:
                    I.need_eq(s, v, ZERO, "ticket-start", "the job counter must start at the first job", ins)

    def finish(self, I):
        super().finish(I)
        I.obl += 1
        n = getattr(self.F, "narrow", None)
        if n is None:
            I.dis += 1
        else:
            I.violations.append(Violation("ticket-width", "the shared job counter has %d bits: it wraps around before the last of a 64 bit number of jobs" % (8 * self.F.width), list(map(list, n[0])), n[1], False))

    def exhausted(self, I, s):
        """nothing taken is left"""
        lo, hi = s.ghost["lo"], s.ghost["hi"]
        return s.poly.entails_ge(lo - hi) or s.poly.entails_ge(lo - self.N)

    def settle_ticket(self, I, s, ins, what):
        I.need(s, True if self.exhausted(I, s) or self.stopping(s) else None, "job-lost", "%s although job %s was taken and not run" % (what, I.show(s, s.ghost["lo"])), ins)
        self.progress_done(I, s, ins, what)

    def progress_done(self, I, s, ins, what):
        if self.progress:
            I.need(s, True if s.poly.entails_eq(s.ghost["ran"] + 1) else None, "progress", "%s although the progress function was not called for finished job %s" % (what, I.show(s, s.ghost["ran"])), ins)

    def stopping(self, s):
        return s.ghost["stop"] or (self.quitting(s) and s.ghost["fail"])

    progress = True

    def rmw(self, I, s, ins, name, args):
        p = args[0]
        if not isinstance(p, Ptr) or not self.shared(s, p.r):
            return None
        o = s.poly.norm(p.o)
        self.record(I, s, ins, p, ins["sz"], True, True)
        c = cellname(p.r, o)
        k = s.poly.norm(args[1]) if isinstance(args[1], Lin) else None
        sz = ins["sz"]
        if name.startswith("@atomicrmw") and ins.get("rmw") == "add" and k is not None and k.is_const() and k.k > 0:
            if c not in self.F.rmw:
                self.F.rmw.add(c)
                self.F.changed = True
            self.F.wrote(c, None)
            self.settle_ticket(I, s, ins, "takes another job")
            self.F.width = min(getattr(self.F, "width", 99), sz)
            if sz < 8:
                self.F.narrow = tuple(map(tuple, I.full_loc(s, ins)[:4])), s.trace
            old = I.fresh("t")
            s.poly.add_ge(old)
            s.poly.add_ge(old - s.ghost["hi"])
            if sz < 8:
                s.poly.add_ge((1 << (8 * sz - 1)) - 1 - old)
            s.ghost["lo"], s.ghost["hi"] = old, old + k
            s.ev("take", old)
            return [(s, old)]
        if name.startswith("@atomicrmw") and ins.get("rmw") == "xchg":
            self.on_store(I, s, ins, p, sz, args[1])
            old = I.fresh("x", s=s, lo=0)
            return [(s, old)]
        if name.startswith("@atomicrmw") and ins.get("rmw") == "or":
            self.on_store(I, s, ins, p, sz, args[1])
            return [(s, I.fresh("x", s=s, lo=0))]
        self.F.wrote(c, None)
        return None

    def take(self, I, s, ins, idx):
        I.need(s, not self.held(s) or None, "job-locked", "a job runs while a lock is held", ins)
        if not s.ghost["seen"]:
            # under the quit strategy the stop flag must have been looked at
            if not self.coll or I.assume_eq(s.copy(), S("$st") - QUIT):
                I.need(s, None, "stop-unseen", "runs another job under the quit strategy without looking at a stop flag since the last job", ins)
        s.ghost["seen"] = 0
        self.progress_done(I, s, ins, "runs the next job")
        G = s.ghost
        ok = s.poly.entails_eq(idx - G["lo"]) and s.poly.entails_ge(G["hi"] - idx - 1)
        I.need(s, True if ok else None, "job-once", "job %s runs although this thread did not take exactly that number from the shared counter" % I.show(s, idx), ins)
        I.need_ge(s, self.N - idx - 1, "job-range", "job number beyond the last job", ins)
        I.need(s, G["pend"] == 0 or None, "error-lost", "the next job runs although a failure was not recorded", ins)
        s.ev("job", idx)
        t = s.copy()
        s.ghost["lo"] = idx + 1
        s.ghost["ran"] = idx
        t.ghost["lo"] = idx + 1
        t.ghost["pend"] = 1
        t.exc = Tok("jobexc")
        t.ev("job fails")
        return [(s, None), (t, THROW)]

    def c_job(self, I, s, ins, args):
        return self.take(I, s, ins, args[0])

    def c_job_tl(self, I, s, ins, args):
        p = args[0]
        I.need(s, None if isinstance(p, Ptr) and self.shared(s, p.r) else True, "thread-local", "the thread-local object is shared between threads", ins)
        I.need(s, True if isinstance(p, Ptr) and I.same(s, s.ghost.get("tl"), p) else None, "thread-local", "the job must get the object its thread created", ins)
        return self.take(I, s, ins, args[1])

    def c_tl_new(self, I, s, ins, args):
        I.need(s, "tl" not in s.ghost or None, "thread-local", "a second thread-local object is created in one thread", ins)
        if self.role(s) == "w":
            s.ghost["tl"] = args[0]
        return None

    def c_jobel(self, I, s, ins, args):
        v = args[0]
        idx = s.poly.norm(v.o).divexact(ES) if isinstance(v, Ptr) and v.r == "A" else None
        I.need(s, True if idx is not None else None, "job-element", "the job does not get an element of the container", ins)
        return self.take(I, s, ins, idx)

    def c_prog(self, I, s, ins, args):
        I.need(s, not self.held(s) or None, "job-locked", "the progress function runs while a lock is held", ins)
        I.need_eq(s, args[0], s.ghost["ran"], "progress", "the progress function must get the job that just finished", ins)
        I.need(s, s.ghost["pend"] == 0 or None, "progress", "progress is reported for a failed job", ins)
        t = s.copy()
        s.ghost["ran"] = Lin.c(-1)
        t.ghost["ran"] = Lin.c(-1)
        t.ghost["pend"] = 1
        t.exc = Tok("jobexc")
        t.ev("progress fails")
        return [(s, None), (t, THROW)]

    # ---- failures
    def c__ZSt17current_exceptionv(self, I, s, ins, args):
        I.write(s, args[0], 8, EXC)
        return None

    def errstore(self, s):
        b = self.F.base.get(cellname("out", ZERO))
        return b.r if isinstance(b, Ptr) else None

    def stored(self, I, s, ins, p, size, v):
        if v == EXC and s.ghost["pend"]:
            inf = I.rinf(s, p.r)
            if isinstance(p.r, tuple) and str(p.r[0]).startswith("V:"):
                s.ghost["pend"] = 0
                s.ghost["fail"] = 1
                self.F.err = p.r
                s.ev("recorded")
        n = s.poly.norm(v) if isinstance(v, Lin) else None
        b = self.F.base.get(cellname(p.r, s.poly.norm(p.o)))
        if ins.get("atomic") and n is not None and isinstance(b, Lin) and b.is_const() and n.is_const() and n.k != b.k:
            # a stop flag: may only be raised when the remaining jobs may be dropped
            I.need(s, True if self.quitting(s) and (s.ghost["fail"] or s.ghost["pend"]) else None, "stop-early",
                   "the stop flag is raised without a failure under the quit strategy: jobs would be left out", ins)
            s.ghost["up"] = 1

    def flag(self, I, s, ins, cell, v, changed):
        s.ghost["seen"] = 1
        if changed:
            s.ghost["stop"] = 1
            if self.coll:
                I.assume_eq(s, S("$st") - QUIT)

    def c__ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE(self, I, s, ins, args):
        v = I.load(s, ins, args[0], 8, "ptr")
        s.exc = v
        s.ev("rethrow", v)
        return [(s, THROW)]

    def init_cell(self, I, s, region, off, size, ty):
        if getattr(self.F, "err", None) == region and ty == "ptr" and self.role(s) == "main":
            idx = s.poly.norm(off - 8).divexact(16)
            if idx is not None:
                return Tok(("err", idx))
        return super().init_cell(I, s, region, off, size, ty)

    # ---- exits
    def exit(self, I, s, kind, val):
        G = s.ghost
        if self.role(s) == "w":
            I.need(s, kind == "return" or None, "escape", "an exception leaves the thread function: the program is terminated")
            I.need(s, not self.held(s) or None, "locked-exit", "the thread ends while holding a lock")
            I.need(s, G["pend"] == 0 or None, "error-lost", "the thread ends and a failure was not recorded")
            self.settle_ticket(I, s, None, "the thread ends")
            I.need(s, True if not G["fail"] or G["up"] or not self.quitting(s) else None, "stop-unset", "the thread ends after a failure under the quit strategy without telling the others to stop")
            done = s.poly.entails_ge(G["hi"] - self.N)
            I.need(s, True if done or self.stopping(s) else None, "complete", "the thread ends although jobs may be left (last number taken: %s)" % I.show(s, G["hi"]))
            return
        # the caller's side
        par = self.parallel(I, s)
        I.need(s, None if par else True, "join-all", "returns while threads may still run (%s started, %s joined)" % (I.show(s, G.get("spawned", ZERO)), I.show(s, G.get("joined", ZERO))))
        sp = G.get("spawned")
        some = sp is not None and s.poly.entails_ge(sp - 1)
        I.need(s, True if some or s.poly.entails_eq(self.N) or s.poly.entails_ge(G["hi"] - self.N) else None, "no-thread", "returns although no thread was started and jobs exist")
        e = s.mem.get("out", {}).get(Lin.c(8))
        b = s.mem.get("out", {}).get(ZERO)
        err = getattr(self.F, "err", None)
        if kind == "return":
            b = I.load(s, None, Ptr("out"), 8, "ptr")
            e = I.load(s, None, Ptr("out", Lin.c(8)), 8, "ptr")
            I.need(s, True if isinstance(b, Ptr) and isinstance(e, Ptr) and b.r == e.r and (err is None or b.r == err or G.get("phase", 0) != 2) and s.poly.entails_eq(b.o) else None, "errors-returned", "the returned list is not the one the threads recorded failures in")
            if self.coll:
                a = [(t, q) for t, q in I.split_eq(s, S("$st") - QUIT)]
            else:
                a = [(s, True)]
            for t, q in a:
                if q and G.get("phase") == 2:
                    I.need(t, True if t.poly.entails_eq(e.o) else None, "rethrow", "returns normally under the quit strategy although a failure may have been recorded")
                elif not q and G.get("phase") == 2 and b.r == err:
                    I.need(t, True if self.untouched(t, e) else None, "errors-returned", "recorded failures are dropped from the returned list (its length is %s)" % I.show(t, e.o))
        elif kind == "throw":
            I.need(s, True if self.quitting(s) else None, "rethrow", "throws although the strategy is to continue")
            I.need(s, True if isinstance(val, Tok) and isinstance(val.n, tuple) and val.n[0] == "err" else None, "rethrow", "throws something that is not a recorded failure (%s)" % (val,))

    def untouched(self, s, e):
        n = s.poly.norm(e.o)
        return len(n.t) == 1 and n.k == 0


class ParColl(Par):
    coll = True


def entry(c, m, e, cls, **at):
    F = Facts()

    def make():
        x = cls(F)
        for k, v in at.items():
            setattr(x, k, v)
        return x
    if m is None:
        c.analyse(m, e, make)
        return
    try:
        saturate(m, e, make)
    except AnalysisError as ex:
        if "not found" in str(ex):
            raise
        c.res.entries.append(dict(entry=e, proved=False, unproved=[str(ex)]))
        c.res.unproved.append(e)
        return

    def make2():
        F.acc = {}
        return make()
    c.analyse(m, e, make2)
    if c.res.entries:
        c.res.entries[-1]["shared_cells"] = ["%s+%s" % k for k in sorted(F.W, key=str)]
        c.res.entries[-1]["shared_accesses"] = len(F.acc)


def run():
    c = Check("T02", "thread-modular job automaton (tickets from one atomic counter, each taken job run once, failures recorded under a lock, every thread joined) and lockset race rule over all shared cells")
    c.min_sites = 25
    c.assumptions = ["starting a thread succeeds", "the job counter does not wrap around"]
    m = c.module("par.cc", keep="keep_par.txt", extra=("-I" + os.path.join(VERIF, "stubs", "std"),))
    jobs = [lambda e=e: entry(c, m, e, ParColl) for e in ("pf_run", "pf_tl", "pf_cont", "pf_ccont", "pf_desc")]
    jobs.append(lambda: entry(c, m, "pf_run_default", Par, progress=False))
    c.par(jobs)
    return c.finish()


if __name__ == "__main__":
    main(run)
