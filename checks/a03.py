#!/usr/bin/env python3
"""A03 equal_ranges / equal_ranges_linear: maximal runs, in order, complete."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from stdalg import sort_model


class Runs(RangeMon):
    ranges = ("A",)
    issorted = False
    cmpdesc = None

    def start(self, I, s):
        s.ghost["g"] = ZERO       # first element not reported yet
        s.ghost["m"] = ZERO       # [g, m) known to be equivalent to element g

    def settle(self, I, s):
        self.refine_order(I, s)
        for _ in range(8):
            g, m = s.ghost["g"], s.ghost["m"]
            if not s.poly.entails_ge(S("$NA") - m - 1):
                return
            if s.poly.entails_eq(g - m):
                s.ghost["m"] = m + 1
                continue
            kg = self.key(I, s, "A", g)
            if s.poly.entails_eq(self.key(I, s, "A", m) - kg):
                s.ghost["m"] = m + 1
                continue
            return

    def call(self, I, s, ins, name, dem, args):
        r = super().call(I, s, ins, name, dem, args)
        if name == "op_eq" and r is not None:
            for t, _ in r:
                self.settle(I, t)
        return r

    def c_evr(self, I, s, ins, args):
        self.settle(I, s)
        r, i = self.pos(I, s, args[1], ins, "run")
        _, j = self.pos(I, s, args[2], ins, "run")
        g, m = s.ghost["g"], s.ghost["m"]
        I.need_eq(s, i, g, "order", "a run must start at the next unreported element", ins)
        I.need_ge(s, j - i - 1, "nonempty", "a reported run must not be empty", ins)
        I.need_ge(s, S("$NA") - j, "range", "a run exceeds the range", ins)
        I.need_ge(s, m - j, "run-equal", "the run may hold elements that are not equivalent", ins)
        mx = s.poly.entails_ge(j - S("$NA"))
        if not mx:
            mx = self.maximal(I, s, i, j)
        I.need(s, True if mx else None, "run-maximal", "the run may end before its last equivalent element", ins, (j,))
        s.ev("run", i, j)
        s.ghost["g"] = j
        s.ghost["m"] = j

    def maximal(self, I, s, i, j):
        d = self.key(I, s, "A", j) - self.key(I, s, "A", i)
        return s.poly.entails_ne(d) or s.poly.entails_ge(d - 1)

    def mode(self, I, s):
        return (self.aligned(I, s, "A", s.ghost["g"]), s.poly.entails_ge(s.ghost["g"] - S("$NA")))

    def exit(self, I, s, kind, val):
        I.need_ge(s, s.ghost["g"] - S("$NA"), "complete", "every element must be part of a reported run")


class Linear(Runs):
    """equality is any reflexive symmetric predicate: runs compare with their first element"""
    def fact2(self, I, s, i, j):
        if s.poly.entails_eq(i - j):
            return 1
        i, j = Ptr("A", s.poly.norm(i)), Ptr("A", s.poly.norm(j))
        r = I.get_fact(s, "eq", (i, j))
        return I.get_fact(s, "eq", (j, i)) if r is None else r

    def settle(self, I, s):
        for _ in range(8):
            g, m = s.ghost["g"], s.ghost["m"]
            if not s.poly.entails_ge(S("$NA") - m - 1):
                return
            if self.fact2(I, s, g, m) != 1:
                return
            s.ghost["m"] = m + 1

    def call(self, I, s, ins, name, dem, args):
        if name in ("op_eq", "op_neq"):
            I.need(s, name == "op_eq" or not self.custom_eq or None, "wrong-order", "elements are compared with their own operator although the caller passed a predicate", ins)
            x = self.elem(I, s, args[0], ins, "equality called")
            y = self.elem(I, s, args[1], ins, "equality called")
            out = []
            for t, same in I.split_eq(s, x[1] - y[1]):
                r = self.fact2(I, t, x[1], y[1])
                for u, v in ([(t, bool(r))] if r is not None else I.split_fact(t, "eq", (Ptr("A", t.poly.norm(x[1])), Ptr("A", t.poly.norm(y[1]))))):
                    self.settle(I, u)
                    out.append((u, Lin.c(int(v))))
            return out
        return super().call(I, s, ins, name, dem, args)

    def maximal(self, I, s, i, j):
        return self.fact2(I, s, i, j) == 0


class Sorted(Runs):
    """the range may be permuted by std::sort, and by nothing else"""
    def start(self, I, s):
        Runs.start(self, I, s)
        s.ghost["sorted"] = 0

    def settle(self, I, s):
        self.sorted = ("A",) if s.ghost["sorted"] else ()
        if s.ghost["sorted"]:
            g, m = s.ghost["g"], s.ghost["m"]
            # sorted: everything up to a known equivalent element is equivalent
            if s.poly.entails_ge(S("$NA") - g - 1):
                kg = self.key(I, s, "A", g)
                for i, (_, k) in list(s.mem.get(("keep", "K", "A"), {}).items()):
                    if s.poly.entails_ge(i + 1 - m) and s.poly.entails_ge(i - g) and not s.poly.entails_eq(i + 1 - m) and s.poly.entails_ge(kg - k):
                        s.ghost["m"] = m = i + 1
        Runs.settle(self, I, s)

    def on_sorted(self, I, s):
        s.mem.pop(("keep", "K", "A"), None)
        s.ghost["sorted"] = 1
        self.sorted = ("A",)

    def call(self, I, s, ins, name, dem, args):
        self.sorted = ("A",) if s.ghost["sorted"] else ()
        r = sort_model(self, I, s, ins, name, dem, args)
        if r is not None:
            return r
        return super().call(I, s, ins, name, dem, args)

    def c_evr(self, I, s, ins, args):
        I.need(s, bool(s.ghost["sorted"]) or None, "sorted-first", "runs are reported before the container is sorted", ins)
        return Runs.c_evr(self, I, s, ins, args)

    def on_access(self, I, s, ins, ptr, size, write):
        pass


def run():
    c = Check("A03", "run automaton: each callback gets the maximal run of equivalent elements at the cursor; runs are non-empty, in order, and cover the range")
    c.min_sites = 20
    c.assumptions = ["the equality is an equivalence relation, the comparator a strict weak order",
                     "std::sort and std::upper_bound/lower_bound behave as the standard specifies"]
    m = c.module("equal_ranges.cc", keep="keep_sort.txt")
    for e in ("lin_it", "lin_it_eq", "lin_co", "lin_co_eq"):
        c.analyse(m, e, custom(Linear, eq=e.endswith("eq")))
    for e in ("srt", "srt_cmp"):
        c.analyse(m, e, custom(Sorted, lt=e.endswith("cmp")))
    return c.finish()


if __name__ == "__main__":
    main(run)
