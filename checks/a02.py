#!/usr/bin/env python3
"""A02 inner/left/full join: group automaton over the callbacks."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *


class Join(RangeMon):
    ranges = ("A", "B")
    sorted = ("A", "B")
    kind = "inner"

    def start(self, I, s):
        s.ghost["ga"] = ZERO
        s.ghost["gb"] = ZERO

    def cells(self, s, r):
        return list(s.mem.get(("keep", "K", r), {}).items())

    def skip(self, I, s, r, o):
        """elements of r known to be smaller than the other cursor's element"""
        g, h = s.ghost["g" + r.lower()], s.ghost["g" + o.lower()]
        if not s.poly.entails_ge(S("$N" + o) - h - 1):
            return False
        moved = False
        ok = None
        for i, (_, k) in self.cells(s, r):
            if s.poly.entails_ge(i + 1 - g) and s.poly.entails_ge(S("$N" + r) - i - 1) and not s.poly.entails_eq(i + 1 - g):
                ok = ok or self.key(I, s, o, h)
                if s.poly.entails_ge(ok - k - 1):
                    g = i + 1
                    s.ghost["g" + r.lower()] = g
                    s.ev("skip", r, i)
                    moved = True
        return moved

    def settle(self, I, s):
        if self.kind == "full":
            return
        self.refine_order(I, s)
        for _ in range(8):
            m = self.skip(I, s, "B", "A")
            if self.kind == "inner":
                m = self.skip(I, s, "A", "B") or m
            if not m:
                break

    def group(self, I, s, p, q, ins, what):
        """[p,q) is the maximal group of equal keys at the cursor of its range"""
        r, i = self.pos(I, s, p, ins, what)
        r2, j = self.pos(I, s, q, ins, what)
        I.need(s, r == r2, "group", "group bounds from different ranges", ins)
        g = s.ghost["g" + r.lower()]
        I.need_eq(s, i, g, "order", "%s group must start at the next unaccounted element of range %s" % (what, r), ins)
        I.need_ge(s, j - i - 1, "group-nonempty", "%s group of range %s must not be empty" % (what, r), ins)
        I.need_ge(s, S("$N" + r) - j, "group-range", "%s group exceeds range %s" % (what, r), ins)
        I.need_ge(s, self.key(I, s, r, i) - self.key(I, s, r, j - 1), "group-equal", "%s group of range %s holds elements that are not equivalent" % (what, r), ins)
        mx = s.poly.entails_ge(j - S("$N" + r))
        if not mx and s.poly.entails_ge(S("$N" + r) - j - 1):
            mx = s.poly.entails_ge(self.key(I, s, r, j) - self.key(I, s, r, i) - 1)
        I.need(s, True if mx else None, "group-maximal", "%s group of range %s may end before its last equivalent element" % (what, r), ins, (j,))
        s.ghost["g" + r.lower()] = j
        return r, i, j

    def c_evr2(self, I, s, ins, args):
        self.settle(I, s)
        # the match fixes both cursors relative to each other
        a = self.pos(I, s, args[1], ins)[1]
        b = self.pos(I, s, args[3], ins)[1]
        r, i, _ = self.group(I, s, args[1], args[2], ins, "matched")
        r2, j, _ = self.group(I, s, args[3], args[4], ins, "matched")
        I.need(s, r == "A" and r2 == "B", "match-sides", "match callback must get (first range, second range)", ins)
        I.need_eq(s, self.key(I, s, "A", i), self.key(I, s, "B", j), "match-equal", "matched groups must have equivalent keys", ins)
        s.ev("match", i, j)

    def c_evr(self, I, s, ins, args):
        self.settle(I, s)
        k = int(s.poly.norm(args[0]).k)
        r, i, _ = self.group(I, s, args[1], args[2], ins, "unmatched")
        I.need(s, r == ("A" if k == 2 else "B"), "unmatched-side", "group reported through the wrong callback", ins)
        o = "B" if r == "A" else "A"
        h = s.ghost["g" + o.lower()]
        ok = s.poly.entails_ge(h - S("$N" + o))
        if not ok and s.poly.entails_ge(S("$N" + o) - h - 1):
            ok = s.poly.entails_ge(self.key(I, s, o, h) - self.key(I, s, r, i) - 1)
        I.need(s, True if ok else None, "unmatched-none", "group of %s reported unmatched although %s may hold an equivalent or smaller unreported element" % (r, o), ins)
        s.ev("only" + r, i)

    def mode(self, I, s):
        return (s.poly.entails_ge(s.ghost["ga"] - S("$NA")), s.poly.entails_ge(s.ghost["gb"] - S("$NB")))

    def exit(self, I, s, kind, val):
        self.settle(I, s)
        a, b = s.ghost["ga"], s.ghost["gb"]
        da = s.poly.entails_ge(a - S("$NA"))
        db = s.poly.entails_ge(b - S("$NB"))
        I.obl += 0
        if self.kind == "inner":
            I.need(s, True if da or db else None, "complete", "returned with possibly matching groups left (A cursor %s, B cursor %s)" % (I.show(s, a), I.show(s, b)))
        else:
            I.need(s, True if da else None, "complete", "returned with elements of the first range unreported (cursor %s)" % I.show(s, a))
            if self.kind == "full":
                I.need(s, True if db else None, "complete", "returned with elements of the second range unreported (cursor %s)" % I.show(s, b))


class Inner(Join):
    pass


class Left(Join):
    kind = "left"


class Full(Join):
    kind = "full"

    def mode(self, I, s):
        return Join.mode(self, I, s) + (self.aligned(I, s, "B", s.ghost["gb"]),)


def run():
    c = Check("A02", "group automaton over fn_match/fn_a/fn_b: every reported group is the maximal group of equivalent keys at the cursor, in order; nothing matching is skipped; complete at return")
    c.min_sites = 30
    c.assumptions = ["both inputs are sorted by a strict weak order (documented precondition)"]
    m = c.module("join.cc")
    for v in ("it_less", "co_less", "it", "co"):
        lt = v.endswith("less")
        c.analyse(m, "inner_" + v, custom(Inner, lt=lt))
        c.analyse(m, "left_" + v, custom(Left, lt=lt))
        c.analyse(m, "full_" + v, custom(Full, lt=lt))
    c.analyse(m, "full_key_less", custom(Full, lt=True))
    return c.finish()


if __name__ == "__main__":
    main(run)
