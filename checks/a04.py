#!/usr/bin/env python3
"""A04 nwise / pairwise: all windows of adjacent elements, in order."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *


class Win(RangeMon):
    n = 2

    def start(self, I, s):
        s.ghost["g"] = ZERO

    def c_evn(self, I, s, ins, args):
        n = int(s.poly.norm(args[1]).k)
        I.need(s, n == self.n, "width", "window of the wrong width", ins)
        for k in range(n):
            r, i = self.elem(I, s, args[2 + k], ins, "window element %d" % k)
            I.need_eq(s, i, s.ghost["g"] + k, "window", "element %d of the window must be the %d-th successor of its first" % (k, k), ins)
        s.ev("window", s.ghost["g"])
        s.ghost["g"] = s.ghost["g"] + 1

    def c_evi(self, I, s, ins, args):
        """it == begin (6), !(it != begin) (7), an iterator inside is the end (8)"""
        k, v = int(s.poly.norm(args[0]).k), int(s.poly.norm(args[1]).k)
        g = s.ghost["g"]
        ok = k < 8 and (s.poly.entails_eq(g) if v else s.poly.entails_ge(g - 1))
        I.need(s, bool(ok) or None, "agree", "comparing view iterators: %s does not tell whether they are at the same window" % ("==" if k == 6 else "!=" if k == 7 else "== and !="), ins)

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return", "no-throw", "iteration ends with an exception")
        g = s.ghost["g"]
        done = s.poly.entails_eq(g - (S("$NA") - self.n + 1)) or \
            (s.poly.entails_eq(g) and s.poly.entails_ge(self.n - 1 - S("$NA")))
        I.need(s, True if done else None, "complete", "%s windows of %d over a range that has a different number of them" % (I.show(s, g), self.n))


class Size(Win):
    def start(self, I, s):
        s.ghost["seen"] = 0

    def c_evi(self, I, s, ins, args):
        g = args[1]
        done = s.poly.entails_eq(g - (S("$NA") - self.n + 1)) and s.poly.entails_ge(g) or \
            (s.poly.entails_eq(g) and s.poly.entails_ge(self.n - 1 - S("$NA")))
        I.need(s, True if done else None, "size", "size() is %s for windows of %d" % (I.show(s, g), self.n), ins)
        s.ghost["seen"] = 1

    def exit(self, I, s, kind, val):
        I.need(s, bool(s.ghost["seen"]) or None, "size-returned", "size() does not return")


class Own(RangeMon):
    """windows over a temporary container that the view must own"""
    ranges = ()

    def bind(self, I, s, f):
        s.rinfo["SRC"] = RInfo(Lin.c(24), "input", es=8)
        f.regs[f.fn.args[0]["id"]] = Ptr("SRC")
        s.ghost["g"] = 0

    def bound(self, I, s, n):
        return True

    def init_cell(self, I, s, region, off, size, ty):
        if region == "SRC" and off.is_const() and size == 8:
            return Lin.sym("$e%d" % (off.k // 8))
        return None

    def c_evn(self, I, s, ins, args):
        g = s.ghost["g"]
        for k in range(2):
            v = I.load(s, ins, args[2 + k], 8, "i64")
            I.need_eq(s, v, Lin.sym("$e%d" % (g + k)) if g + k < 3 else Lin.c(-1), "owned-window", "element %d of window %d" % (k, g), ins)
        s.ghost["g"] = g + 1

    def exit(self, I, s, kind, val):
        I.need(s, s.ghost["g"] == 2 or None, "complete", "%d windows of two over three elements" % s.ghost["g"])


def win(n, cls=Win):
    def make():
        m = cls()
        m.n = n
        return m
    return make


def run():
    c = Check("A04", "window automaton: the k-th dereference yields elements k..k+N-1 of the container, max(0, size-N+1) times; size() agrees; temporaries stay alive inside the view")
    c.min_sites = 20
    m = c.module("nwise.cc")
    for e, n in (("w1_lv", 1), ("w2_lv", 2), ("w2_const", 2), ("w2_rv", 2), ("w3_lv", 3), ("w4_rv", 4), ("pw_lv", 2), ("pw_rv", 2), ("pw_it", 2), ("w2_eq", 2), ("w2_cst", 2), ("w2_agree", 2), ("w3_agree", 3)):
        c.analyse(m, e, win(n))
    for e, n in (("sz2_lv", 2), ("sz3_lv", 3), ("sz2_rv", 2), ("sz1_rv", 1), ("sz3_rv", 3), ("sz2_pw", 2)):
        c.analyse(m, e, win(n, Size))
    for e in ("own_pw", "own_pw_auto"):
        c.analyse(m, e, Own)
    return c.finish()


if __name__ == "__main__":
    main(run)
