#!/usr/bin/env python3
"""A13 container versions of the standard algorithms: the whole container, the given predicate, the standard's result."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pipespec import *
import stdalg

X = Ptr("val:X", ZERO)


class Alg(Pipe):
    """Pipe's cursor g decides the elements; `what` names the expected result"""
    what = ""

    def bind(self, I, s, f):
        Pipe.bind(self, I, s, f)
        s.rinfo["X"] = RInfo(Lin.c(8), "input", es=8)
        for a in f.fn.args:
            if a["name"] == "x":
                f.regs[a["id"]] = Ptr("X")

    def init_cell(self, I, s, region, off, size, ty):
        if region == "X":
            return X
        return Pipe.init_cell(self, I, s, region, off, size, ty)

    def walk(self, I, s):
        if self.what == "find":
            v = self.source_value(I, s, s.ghost["g"])
            r = I.get_fact(s, "eq", (v, X))
            r = I.get_fact(s, "eq", (X, v)) if r is None else r
            return (None if r is None else "found" if r else "drop"), v, None
        r, v, last = Pipe.walk(self, I, s)
        return ("drop" if r == "keep" else r), v, last          # there is no sink

    def exit(self, I, s, kind, val):
        self.settle(I, s)
        I.need(s, kind == "return" or None, "no-throw", "throws")
        w = self.what
        for t, more in ([(s, self.more(I, s))] if s.ghost["stop"] or self.more(I, s) is not None else []):
            stop = bool(t.ghost["stop"])
            I.need(t, (stop or more is False) or None, "complete", "the result is given before element %s was looked at" % I.show(t, t.ghost["g"]))
            if w in ("find_if", "find"):
                ok = isinstance(val, Ptr) and val.r == "A" and t.poly.entails_eq(val.o - t.ghost["g"] * 8)
                I.need(t, True if ok else None, "result", "the result is %s instead of position %s" % (I.show(t, val), I.show(t, t.ghost["g"])))
            elif w == "count":
                I.need_eq(t, val, t.ghost["cnt"], "result", "the count is %s" % I.show(t, val))
            else:
                want = {"all": not stop, "any": stop, "none": not stop, "sorted": not stop}[w]
                I.need_eq(t, val, Lin.c(int(want)), "result", "the result is %s" % I.show(t, val))
            return
        I.need(s, None, "complete", "the result is given before element %s was looked at" % I.show(s, s.ghost["g"]))


    def c_pnlt(self, I, s, ins, args):
        return [(t, Lin.c(int(v))) for t, v in I.split_fact(s, "nlt", tuple(args))]


class Sorted(Alg):
    """stop when element g is smaller than its predecessor"""
    what = "sorted"

    def start(self, I, s):
        Pipe.start(self, I, s)
        s.ghost["g"] = ONE

    def walk(self, I, s):
        g = s.ghost["g"]
        r = I.get_fact(s, "lt", (Ptr("val:V", g), Ptr("val:V", g - 1)))
        return (None if r is None else "stop" if r else "drop"), None, None

    def c_plt(self, I, s, ins, args):
        for x in args:
            self.valid_token(I, s, x, ins, "the comparator")
        out = []
        for t, v in I.split_fact(s, "lt", tuple(args)):
            self.settle(I, t)
            out.append((t, Lin.c(int(v))))
        return out


class Extreme(RangeMon):
    """max_element / min_element: the first element that no element exceeds"""
    taint = True
    sign = 1

    def start(self, I, s):
        s.ghost["g"] = ZERO
        s.ghost["best"] = ZERO

    def init_cell(self, I, s, region, off, size, ty):
        i = s.poly.norm(off).divexact(8) if region == "A" and size == 8 else None
        return None if i is None else Ptr("val:V", i)

    def on_access(self, I, s, ins, ptr, size, write):
        if ptr.r == "A":
            o = s.poly.norm(ptr.o)
            ok = s.poly.entails_ge(o) and s.poly.entails_ge(S("$NA") * 8 - o - size)
            I.need(s, True if ok else None, "in-range", "element %s is read, outside the container" % I.show(s, o.divexact(8) or o), ins, (o,))
            I.need(s, not write or None, "input-mutated", "an element is written", ins)

    def better(self, I, s, x, y):
        """x beats y: True / False / None"""
        d = (self.key(I, s, "A", x) - self.key(I, s, "A", y)) * self.sign
        if s.poly.entails_ge(d - 1):
            return True
        if s.poly.entails_ge(-d):
            return False
        return None

    def settle(self, I, s):
        for _ in range(4):
            g = s.ghost["g"]
            if not s.poly.entails_ge(S("$NA") - g - 1):
                return
            if s.poly.entails_eq(g):
                s.ghost["g"] = g + 1
                continue
            b = self.better(I, s, g, s.ghost["best"])
            if b is None:
                return
            if b:
                s.ghost["best"] = g
            s.ghost["g"] = g + 1

    def c_plt(self, I, s, ins, args):
        for x in args:
            I.need(s, is_tok(x) or None, "value", "the comparator gets no element", ins, (x,))
        out = []
        for t, v in I.split_ge(s, self.key(I, s, "A", args[1].o) - self.key(I, s, "A", args[0].o) - 1):
            self.settle(I, t)
            out.append((t, Lin.c(int(v))))
        return out

    def mode(self, I, s):
        return self.aligned(I, s, "A", s.ghost["g"]) + self.aligned(I, s, "A", s.ghost["best"])

    def exit(self, I, s, kind, val):
        self.settle(I, s)
        n = S("$NA")
        if s.poly.entails_ge(n - 1):
            I.need_ge(s, s.ghost["g"] - n, "complete", "the result is given before element %s was looked at" % I.show(s, s.ghost["g"]))
        _, p = self.pos(I, s, val, None, "result")
        I.need_eq(s, p, s.ghost["best"], "result", "the result is element %s" % I.show(s, p))


class Equal(Pipe):
    """stop at the first pair of different elements; the sizes count"""
    def bind(self, I, s, f):
        Pipe.bind(self, I, s, f)
        n = S("$NB")
        s.poly.add_ge(n)
        s.rinfo["B"] = RInfo(n * 8, "input", es=8)
        names = {a["name"]: a["id"] for a in f.fn.args}
        f.regs[names["b"]] = Ptr("B")
        f.regs[names["be"]] = Ptr("B", n * 8)

    def bound(self, I, s, n):
        return Pipe.bound(self, I, s, n) and I.assume_ge(s, Lin.c(n) - S("$NB"))

    def init_cell(self, I, s, region, off, size, ty):
        i = s.poly.norm(off).divexact(8) if region in ("A", "B") and size == 8 else None
        return None if i is None else Ptr("val:" + region, i)

    def on_access(self, I, s, ins, ptr, size, write):
        if ptr.r in ("A", "B"):
            o = s.poly.norm(ptr.o)
            ok = s.poly.entails_ge(o) and s.poly.entails_ge(S("$N" + ptr.r) * 8 - o - size)
            I.need(s, True if ok else None, "in-range", "element %s of %s is read, outside the container" % (I.show(s, o.divexact(8) or o), ptr.r), ins, (o,))
            I.need(s, not write or None, "input-mutated", "an element is written", ins)

    def walk(self, I, s):
        g = s.ghost["g"]
        if not s.poly.entails_ge(S("$NB") - g - 1):
            return None, None, None
        a, b = Ptr("val:A", g), Ptr("val:B", g)
        r = I.get_fact(s, "eq", (a, b))
        r = I.get_fact(s, "eq", (b, a)) if r is None else r
        return (None if r is None else "drop" if r else "stop"), None, None

    def exit(self, I, s, kind, val):
        self.settle(I, s)
        n = S("$NA") - S("$NB")
        for t, same in I.split_eq(s, n):
            if not same:
                I.need_eq(t, val, ZERO, "result", "containers of different size are equal")
                continue
            self.settle(I, t)
            if t.ghost["stop"]:
                I.need_eq(t, val, ZERO, "result", "containers with different elements are equal")
            else:
                I.need(t, self.more(I, t) is False or None, "complete", "the result is given before element %s was compared" % I.show(t, t.ghost["g"]))
                I.need_eq(t, val, ONE, "result", "containers with equal elements are different")


class Whole(RangeMon):
    """sort / nth_element: the standard algorithm on the whole container, once"""
    algs = ("sort", "stable_sort")
    taint = True
    nth = False

    def arg(self, I, s, name, ty):
        if name == "n":
            s.poly.add_ge(S("$n"))
            s.poly.add_ge(S("$NA") - S("$n"))
            return S("$n")
        return RangeMon.arg(self, I, s, name, ty)

    def start(self, I, s):
        s.ghost["done"] = 0

    def call(self, I, s, ins, name, dem, args):
        n = stdalg.alg(dem)
        if n in self.algs or n in ("sort", "stable_sort"):
            I.need(s, (stdalg.targs(dem) > 1) if self.custom_lt else True or None, "wrong-order", "std::%s without the comparator the caller passed" % n, ins)
            last = 2 if self.nth and n == "nth_element" else 1
            _, i = self.pos(I, s, args[0], ins, "begin")
            _, j = self.pos(I, s, args[last], ins, "end")
            I.need_eq(s, i, ZERO, "whole", "std::%s begins at %s" % (n, I.show(s, i)), ins)
            I.need_eq(s, j, S("$NA"), "whole", "std::%s ends at %s" % (n, I.show(s, j)), ins)
            if last == 2:
                _, k = self.pos(I, s, args[1], ins, "nth")
                I.need_eq(s, k, S("$n"), "nth", "element %s is selected" % I.show(s, k), ins)
            s.ghost["done"] = 1
            return [(s, None)]
        return None

    def exit(self, I, s, kind, val):
        I.need(s, bool(s.ghost["done"]) or s.poly.entails_ge(ONE - S("$NA")) or None, "done", "the container is left as it was")


class Fill(RangeMon):
    taint = True

    def arg(self, I, s, name, ty):
        return Ptr("X") if name == "x" else RangeMon.arg(self, I, s, name, ty)

    def start(self, I, s):
        s.rinfo["X"] = RInfo(Lin.c(8), "input", es=8)
        s.ghost["f"] = ZERO

    def init_cell(self, I, s, region, off, size, ty):
        return X if region == "X" else None

    def on_access(self, I, s, ins, ptr, size, write):
        if ptr.r == "A":
            o = s.poly.norm(ptr.o)
            ok = s.poly.entails_ge(o) and s.poly.entails_ge(S("$NA") * 8 - o - size)
            I.need(s, True if ok else None, "in-range", "element %s is written, outside the container" % I.show(s, o.divexact(8) or o), ins, (o,))

    def on_store(self, I, s, ins, p, size, v):
        if p.r == "A":
            s.mem.pop("A", None)
            I.need(s, (isinstance(v, Ptr) and v.r == "val:X") or None, "value", "an element gets another value (%s)" % I.show(s, v), ins, (v,))
            if s.poly.entails_eq(p.o - s.ghost["f"] * 8):
                s.ghost["f"] = s.ghost["f"] + 1

    def exit(self, I, s, kind, val):
        I.need_eq(s, s.ghost["f"], S("$NA"), "complete", "only %s elements are set" % I.show(s, s.ghost["f"]))


def mk(cls, **kw):
    def make():
        m = cls()
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    return make


ENTRIES = [("al_all", mk(Alg, what="all", stages=("W1",))), ("al_all_c", mk(Alg, what="all", stages=("W1",))),
           ("al_any", mk(Alg, what="any", stages=("F1",))), ("al_any_c", mk(Alg, what="any", stages=("F1",))),
           ("al_none", mk(Alg, what="none", stages=("F1",))), ("al_find_if", mk(Alg, what="find_if", stages=("F1",))),
           ("al_find", mk(Alg, what="find")), ("al_count", mk(Alg, what="count", stages=("C1",))),
           ("al_srt", Sorted), ("al_equal", Equal), ("al_max", Extreme), ("al_min", mk(Extreme, sign=-1)),
           ("al_sort", Whole), ("al_sort_p", mk(Whole, custom_lt=True)),
           ("al_nth", mk(Whole, algs=("nth_element",), nth=True)), ("al_nth_p", mk(Whole, algs=("nth_element",), nth=True, custom_lt=True)),
           ("al_fill", Fill)]


PRE = """#include <functional>
#include "utl/helpers/algorithm.h"
int x[3];"""
USES = ["utl::all_of(x, [](int) { return true; });", "utl::any_of(x, [](int) { return true; });", "utl::none_of(x, [](int) { return true; });",
        "(void)utl::find_if(x, [](int) { return true; });", "(void)utl::find(x, 1);", "(void)utl::count_if(x, [](int) { return true; });",
        "utl::sort(x);", "utl::sort(x, std::greater<>{});", "(void)utl::is_sorted(x, std::less<>{});", "utl::fill(x, 1);", "(void)utl::equal(x, x);",
        "(void)utl::max_element(x, std::less<>{});", "(void)utl::min_element(x, std::less<>{});"]


def run():
    c = Check("A13", "decision automaton: a result is given only when the elements looked at decide it, and it is the standard's; sort and nth_element get the whole container and the caller's comparator")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 40
    c.assumptions = ["predicates are pure, comparators strict weak orders", "std::sort and std::nth_element by contract"]
    m = c.module("algo.cc", keep="keep_alg.txt")
    c.par([lambda e=e, f=f: c.analyse(m, e, f, budget=100) for e, f in ENTRIES if not only or e in only.split(",")])
    if not only:
        c.compiles("c_array", "container", PRE, [(x, "a built-in array is a container") for x in USES])
    return c.finish()


if __name__ == "__main__":
    main(run)
