#!/usr/bin/env python3
"""A08 pipes: a pipeline hands its sink exactly the specified elements, in order."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pipespec import *


class Num(Pipe):
    """numbers: sum, average and maximum of the kept elements"""
    def bind(self, I, s, f):
        Pipe.bind(self, I, s, f)
        if self.sink == "max":
            s.ghost["cnt"] = S("$x")

    def init_cell(self, I, s, region, off, size, ty):
        i = s.poly.norm(off).divexact(8) if region == "A" and size == 8 else None
        return None if i is None else self.num(I, s, i)

    def num(self, I, s, i):
        k = self.key(I, s, "A", i)
        s.poly.add_ge(k + 2 ** 31)
        s.poly.add_ge(Lin.c(2 ** 31) - k)
        if self.sink == "sum":
            s.poly.add_ge(k)
        return k

    def walk(self, I, s):
        if not self.stages:
            return "keep", None, None
        r = I.get_fact(s, "p1", (tk("val:V", s.ghost["g"]),))
        return (None if r is None else "drop" if r else "keep"), None, None

    def c_pp(self, I, s, ins, args):
        # a predicate on a number: which element is it?
        for i, (_, k) in s.mem.get(("keep", "K", "A"), {}).items():
            if s.poly.entails_eq(args[1] - k):
                out = []
                for t, v in I.split_fact(s, "p1", (tk("val:V", i),)):
                    self.settle(I, t)
                    out.append((t, Lin.c(int(v))))
                return out
        I.need(s, None, "value", "a predicate gets a value that is no element", ins)

    def invariants(self, I, s):
        Pipe.invariants(self, I, s)
        if self.sink == "avg":
            s.poly.add_ge(s.ghost["calls"])

    def settle(self, I, s):
        for _ in range(6):
            if self.more(I, s) is not True:
                return
            r, _, _ = self.walk(I, s)
            if r is None:
                return
            g = s.ghost["g"]
            if r == "keep":
                k = self.num(I, s, g)
                if self.sink == "max":
                    m = s.ghost["cnt"]
                    if s.poly.entails_ge(k - m):
                        s.ghost["cnt"] = k
                    elif not s.poly.entails_ge(m - k):
                        return
                else:
                    s.ghost["cnt"] = s.ghost["cnt"] + k
                    s.ghost["calls"] = s.ghost["calls"] + 1
            s.ghost["g"] = g + 1

    def fp(self, I, s, ins, args):
        args = [Lin.c(int(float(x.n[3:]))) if isinstance(x, Tok) and isinstance(x.n, str) and x.n in ("fp:0", "fp:1") else x for x in args]
        if ins["op"] == "fdiv":
            self.settle(I, s)
            a, b = args
            I.need_eq(s, a, s.ghost["cnt"], "sum", "the dividend of the average is not the sum of the elements", ins)
            I.need_eq(s, b, s.ghost["calls"], "count", "the divisor of the average is not their number", ins)
            s.ghost["res"] = 1
            return Tok("avg")
        if ins["op"] == "fadd" and all(isinstance(x, Lin) for x in args):
            return args[0] + args[1]
        if ins["op"] in ("uitofp", "sitofp") and isinstance(args[0], Lin):
            if ins["op"] == "uitofp":
                I.need_ge(s, args[0], "sign-lost", "a number that may be negative is converted as an unsigned one", ins)
            return args[0]
        return None

    def exit(self, I, s, kind, val):
        self.settle(I, s)
        I.need(s, kind == "return" or None, "no-throw", "the pipeline throws")
        I.need(s, self.more(I, s) is False or None, "complete", "the pipeline ends before element %s" % I.show(s, s.ghost["g"]))
        if self.sink == "avg":
            I.need(s, (s.ghost["res"] == 1 and isinstance(val, Tok)) or None, "result", "the result is not the average")
        else:
            I.need_eq(s, val, s.ghost["cnt"], "result", "the result is %s" % I.show(s, val))


ENTRIES = [("fe" if not p else "fe_" + "".join(x[0].lower() for x in p.split()), pipe(p)) for p in (
    "", "T1", "T1 T2", "R1", "T1 R2", "R1 T2", "R1 R2", "T1 R2 T3", "W1", "T1 W2", "W1 T2", "R1 W2", "W1 R2",
    "U", "T1 U", "U T1", "U R1", "R1 U", "U W1", "W1 U")]
ENTRIES += [(e, pipe("R1 T2")) for e in ("s_vec", "s_eb", "s_to", "s_ebt", "s_ins", "s_emp", "s_it")]
ENTRIES += [("s_itw", pipe("W1")), ("s_acc", pipe("R1 T2", sink="acc")), ("s_cnt", pipe("R1 C2", sink="count")),
            ("s_find", pipe("R1 T2 F3", sink="find")), ("c_acc", pipe("", sink="acc")), ("c_cnt", pipe("C2", sink="count")),
            ("c_find", pipe("F3", sink="find"))]
ENTRIES += [(e, pipe("")) for e in ("c_ins", "c_emp", "c_const", "c_ptr")]
ENTRIES += [("c_w", pipe("W1")), ("a_it", pipe("T1")), ("a_cst", pipe("R1"))]
ENTRIES += [("o_vec", pipe("T1", source="own")), ("o_late", pipe("R1", source="own")), ("o_acc", pipe("", source="own", sink="acc1")),
            ("o_cnt", pipe("C1", source="own", sink="count1")), ("o_find", pipe("F1", source="own", sink="find")),
            ("o_ins", pipe("", source="own")), ("o_it", pipe("T1", source="own")), ("o_il", pipe("T1", source="own"))]
ENTRIES += [("h_fe", pipe("")), ("h_t", pipe("T1")), ("h_rt", pipe("R1 T2")), ("h_tr", pipe("T1 R2")), ("h_w", pipe("W1")),
            ("h_u", pipe("U")), ("h_ru", pipe("R1 U")), ("h_late", pipe("R1 T2")), ("h_it", pipe("R1 T2")),
            ("h_ins", pipe("")), ("h_emp", pipe("")), ("h_find", pipe("F3", sink="find")), ("h_cnt", pipe("C2", sink="count")),
            ("h_acc", pipe("", sink="acc"))]
ENTRIES += [("n_iota", pipe("", source="iota")), ("n_iota_t", pipe("T1 R2", source="iota")),
            ("n_gen", pipe("W1", source="gen")), ("n_gen_t", pipe("T1 R3 W2", source="gen"))]
ENTRIES += [("n_sum", pipe("R1", Num, sink="sum")), ("n_sumc", pipe("", Num, sink="sum")),
            ("n_avg", pipe("R1", Num, sink="avg")), ("n_max", pipe("R1", Num, sink="max"))]


def run():
    c = Check("A08", "pipeline automaton: every value handed to the sink is the next element that the stages select, with the stage functions applied in order; complete at the end, nothing read outside the source")
    c.min_sites = 60
    c.assumptions = ["stage functions and predicates are pure", "numbers in the summed ranges are at most 2^31 in absolute value (sum: not negative)"]
    m = c.module("pipes.cc")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else c.min_sites
    c.par([lambda e=e, f=f: c.analyse(m, e, f, budget=100) for e, f in ENTRIES if not only or e in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
