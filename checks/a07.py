#!/usr/bin/env python3
"""A07 power_set_intersection: every equal pair exactly once, as (first, second)."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *


class Psi(RangeMon):
    """pairs are reported in the order row (ga, gb..), column (ga+1.., gb), next"""
    ranges = ("A", "B")
    sorted = ("A", "B")

    def start(self, I, s):
        s.ghost["ga"] = ZERO
        s.ghost["gb"] = ZERO
        s.ghost["c"] = ZERO       # next column of row ga      (phase 1)
        s.ghost["r"] = ZERO       # next row of column gb      (phase 2)
        s.ghost["ph"] = 0

    def inr(self, s, r, i):
        return s.poly.entails_ge(S("$N" + r) - i - 1)

    def ended(self, I, s, r, i, o, j):
        """no element of r from i on is equivalent to o[j] (everything before is not greater)"""
        if s.poly.entails_ge(i - S("$N" + r)):
            return True
        if not self.inr(s, r, i):
            return False
        return s.poly.entails_ge(self.key(I, s, r, i) - self.key(I, s, o, j) - 1)

    def settle(self, I, s):
        self.refine_order(I, s)
        G = s.ghost
        for _ in range(8):
            if G["ph"] == 1 and self.ended(I, s, "B", G["c"], "A", G["ga"]):
                G["ph"] = 2
                G["r"] = G["ga"] + 1
                continue
            if G["ph"] == 2 and self.inr(s, "B", G["gb"]) and self.ended(I, s, "A", G["r"], "B", G["gb"]):
                G["ph"] = 0
                G["ga"] = G["ga"] + 1
                G["gb"] = G["gb"] + 1
                G["c"] = G["r"] = ZERO
                continue
            if G["ph"] == 0 and self.inr(s, "A", G["ga"]) and self.inr(s, "B", G["gb"]):
                a, b = self.key(I, s, "A", G["ga"]), self.key(I, s, "B", G["gb"])
                if s.poly.entails_ge(b - a - 1):
                    G["ga"] = G["ga"] + 1
                    continue
                if s.poly.entails_ge(a - b - 1):
                    G["gb"] = G["gb"] + 1
                    continue
            return

    def call(self, I, s, ins, name, dem, args):
        r = super().call(I, s, ins, name, dem, args)
        if name in ("op_lt", "op_nlt") and r is not None:
            out = []
            for t, v in r:
                try:
                    self.settle(I, t)
                except Bottom:
                    continue
                out.append((t, v))
            return out
        return r

    def c_ev2(self, I, s, ins, args):
        self.settle(I, s)
        r, i = self.elem(I, s, args[1], ins, "callback")
        q, j = self.elem(I, s, args[2], ins, "callback")
        I.need(s, r == "A" and q == "B", "pair-order", "the callback must get (element of the first range, element of the second)", ins)
        I.need_eq(s, self.key(I, s, "A", i), self.key(I, s, "B", j), "pair-equal", "reported elements must be equivalent", ins)
        G = s.ghost
        if G["ph"] == 0:
            I.need_eq(s, i, G["ga"], "order", "row", ins)
            I.need_eq(s, j, G["gb"], "order", "column", ins)
            G["ph"] = 1
            G["c"] = j + 1
        elif G["ph"] == 1:
            I.need_eq(s, i, G["ga"], "order", "row", ins)
            I.need_eq(s, j, G["c"], "order", "column", ins)
            G["c"] = j + 1
        else:
            I.need_eq(s, i, G["r"], "order", "row", ins)
            I.need_eq(s, j, G["gb"], "order", "column", ins)
            G["r"] = i + 1
        s.ev("pair", i, j)

    def mode(self, I, s):
        G = s.ghost
        return (G["ph"], s.poly.entails_ge(G["ga"] - S("$NA")), s.poly.entails_ge(G["gb"] - S("$NB")))

    def exit(self, I, s, kind, val):
        self.settle(I, s)
        G = s.ghost
        done = G["ph"] == 0 and (s.poly.entails_ge(G["ga"] - S("$NA")) or s.poly.entails_ge(G["gb"] - S("$NB")))
        I.need(s, True if done else None, "complete", "returned although pairs may be left")


class PsiSet(RangeMon):
    """the same guarantee as a set, for bounded lengths: any order is fine"""
    ranges = ("A", "B")
    sorted = ("A", "B")

    def start(self, I, s):
        s.ghost["ev"] = ()

    def settle(self, I, s):
        self.refine_order(I, s)

    def c_ev2(self, I, s, ins, args):
        r, i = self.elem(I, s, args[1], ins, "callback")
        q, j = self.elem(I, s, args[2], ins, "callback")
        I.need(s, r == "A" and q == "B", "pair-order", "the callback must get (element of the first range, element of the second)", ins)
        I.need_eq(s, self.key(I, s, "A", i), self.key(I, s, "B", j), "pair-equal", "reported elements must be equivalent", ins)
        I.need(s, None if (i, j) in s.ghost["ev"] else True, "pair-once", "pair (%s, %s) is reported twice" % (I.show(s, i), I.show(s, j)), ins)
        s.ghost["ev"] += ((i, j),)
        s.ev("pair", i, j)

    def exit(self, I, s, kind, val):
        for t, na in self.lengths(I, s, "A"):
            for u, nb in self.lengths(I, t, "B"):
                for i in range(na):
                    for j in range(nb):
                        if (Lin.c(i), Lin.c(j)) in u.ghost["ev"]:
                            continue
                        w = u.copy()
                        try:
                            ok = not I.assume_eq(w, self.key(I, w, "A", Lin.c(i)) - self.key(I, w, "B", Lin.c(j))) or not w.poly.sat()
                        except Bottom:
                            ok = True
                        I.need(u, True if ok else None, "complete", "pair (%d, %d) of equivalent elements may be left out (lengths %d, %d)" % (i, j, na, nb))


def run():
    c = Check("A07", "pair automaton: (a, b) callbacks cover every pair of equivalent elements exactly once")
    c.min_sites = 20
    c.assumptions = ["both inputs are sorted by the comparator (documented precondition)"]
    m = c.module("psi.cc")
    for e in ("psi_it", "psi_it_less", "psi_co", "psi_co_less"):
        lt = e.endswith("less")
        c.analyse(m, e, custom(Psi, lt=lt), confirm=custom(PsiSet, lt=lt))
    return c.finish()


if __name__ == "__main__":
    main(run)
