#!/usr/bin/env python3
"""A12 is_uniform: true exactly when all elements are equal."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *


class Uni(RangeMon):
    def start(self, I, s):
        s.ghost["m"] = ZERO          # [0, m) known to be equal to element 0

    def settle(self, I, s):
        for _ in range(8):
            m = s.ghost["m"]
            if not s.poly.entails_ge(S("$NA") - m - 1):
                return
            if s.poly.entails_eq(m) or s.poly.entails_eq(self.key(I, s, "A", m) - self.key(I, s, "A", ZERO)):
                s.ghost["m"] = m + 1
                continue
            return

    def call(self, I, s, ins, name, dem, args):
        r = super().call(I, s, ins, name, dem, args)
        if name in ("op_eq", "op_neq") and r is not None:
            for t, _ in r:
                self.settle(I, t)
        return r

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "throws")
        for t, z in I.split_eq(s, val):
            self.settle(I, t)
            if not z:
                I.need_ge(t, t.ghost["m"] - S("$NA"), "all-equal", "reported uniform although element %s was not found equal to the first" % I.show(t, t.ghost["m"]))
            else:
                k0 = self.key(I, t, "A", ZERO)
                d = [i for i, (_, k) in t.mem.get(("keep", "K", "A"), {}).items() if t.poly.entails_ne(k - k0) or t.poly.entails_ge(k - k0 - 1) or t.poly.entails_ge(k0 - k - 1)]
                I.need(t, True if d else None, "witness", "reported non-uniform without a differing pair of elements")


def run():
    c = Check("A12", "result automaton: true only when every element was found equal to the first, false only with a differing pair; no element is written, nothing outside the range is touched")
    c.min_sites = 15
    c.assumptions = ["element equality is an equivalence"]
    m = c.module("uniform.cc")
    for e in ("un_co", "un_const", "un_it", "un_cit", "un_it_fn", "un_co_fn"):
        c.analyse(m, e, custom(Uni, eq=e.endswith("fn")))
    return c.finish()


if __name__ == "__main__":
    main(run)
