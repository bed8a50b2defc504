#!/usr/bin/env python3
"""A14 for_each_set_bit / has_bit_set: exactly the set bits, in ascending order."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *

L = Tok("levels")


class Bits(Monitor):
    """bit domain: levels, single-bit masks (1 << b), levels >> b, and bit tests stay symbolic"""
    W = 64
    taint = True
    can_bound = True
    slice_unroll = 70

    def bound(self, I, s, n):
        """slices: only a few low and high bits may be set"""
        free = {0: (), 1: (self.W - 1,), 2: (0, self.W - 1), 3: (0, 1, self.W - 1), 4: (0, 1, self.W // 2, self.W - 1)}[min(n, 4)]
        for b in range(self.W):
            if b not in free:
                I.set_fact(s, "bit", (Lin.c(b),), 0)
        return True

    def bind(self, I, s, f):
        s.ghost["g"] = ZERO
        f.regs[f.fn.args[0]["id"]] = L
        if len(f.fn.args) > 1:
            s.poly.add_ge(S("$bit"))
            s.poly.add_ge(Lin.c(self.W - 1) - S("$bit"))
            f.regs[f.fn.args[1]["id"]] = S("$bit")

    # tokens: ("v", lo, sh): levels without the bits below lo, shifted right by sh; ("mask", b): 1 << b;
    # ("nmask", b): ~(1 << b); ("dec", lo): levels without the bits below lo, minus 1; ("test", b): nonzero iff bit b is set
    def tag(self, v, t):
        return isinstance(v, Tok) and isinstance(v.n, tuple) and v.n[0] == t

    def view(self, v):
        """(lo, sh) of a part of levels"""
        if v == L:
            return 0, 0
        return v.n[1:] if self.tag(v, "v") else None

    def mkview(self, lo, sh):
        return L if lo == 0 and sh == 0 else Tok(("v", lo, sh))

    def bit(self, I, s, b):
        return I.get_fact(s, "bit", (Lin.c(b),))

    def lowest(self, I, s, lo):
        """[(state, lowest set bit >= lo or None)]"""
        out = []
        for b in range(lo, self.W):
            k = self.bit(I, s, b)
            if k == 1:
                return out + [(s, b)]
            if k is None:
                t = s.copy()
                I.set_fact(t, "bit", (Lin.c(b),), 1)
                out.append((t, b))
                I.set_fact(s, "bit", (Lin.c(b),), 0)
        if self.dead(I, s):
            return out
        self.settle(I, s)
        return out + [(s, None)]

    def dead(self, I, s):
        """a part known to be nonzero has no set bit"""
        return any(k[0] == "nz" and all(self.bit(I, s, b) == 0 for b in range(int(k[1][0].k), self.W)) for k in list(s.facts))

    def const(self, s, v):
        if isinstance(v, Lin):
            v = s.poly.norm(v)
            if v.is_const():
                return int(v.k)
        return None

    def bitop(self, I, s, ins, op, a, b):
        w = ins.get("w", 64)
        if op == "shl" and isinstance(a, Lin) and s.poly.norm(a) == ONE and isinstance(b, Lin):
            b = s.poly.norm(b)
            I.need(s, True if s.poly.bounds(b, 0, w - 1) else None, "shift-width", "shift of a %d-bit value by %s" % (w, I.show(s, b)), ins)
            I.need(s, True if s.poly.bounds(b, 0, w - 1) and (w >= self.W or s.poly.bounds(b, 0, w - 1)) else None, "mask", "mask", ins)
            return Tok(("mask", b))
        if op == "shl" and self.tag(a, "mask") and isinstance(b, Lin):
            b = s.poly.norm(a.n[1] + b)
            if s.poly.bounds(b, 0, min(w, self.W) - 1):
                return Tok(("mask", b))
            return None
        if op in ("lshr", "ashr") and self.view(a) and isinstance(b, Lin):
            b = s.poly.norm(b)
            I.need(s, True if s.poly.bounds(b, 0, w - 1) else None, "shift-width", "shift of a %d-bit value by %s" % (w, I.show(s, b)), ins)
            lo, sh = self.view(a)
            if b.is_const():
                sh += int(b.k)
                return self.mkview(max(lo, sh), sh)
            return Tok(("shr", b)) if a == L else None
        if op == "xor":
            for x, y in ((a, b), (b, a)):
                if self.tag(x, "mask") and self.const(s, y) in (-1, (1 << w) - 1):
                    return Tok(("nmask", x.n[1]))
                if self.view(x) and self.tag(y, "mask") and self.view(x)[1] == 0:
                    return self.clear(I, s, x, y.n[1], True)
        if op in ("add", "sub") and self.view(a) and self.view(a)[1] == 0 and self.const(s, b) == (-1 if op == "add" else 1):
            return Tok(("dec", self.view(a)[0]))
        if op == "and":
            for x, y in ((a, b), (b, a)):
                k = self.const(s, y)
                if self.view(x):
                    lo, sh = self.view(x)
                    if self.tag(y, "mask"):
                        m = y.n[1] + sh
                        if lo <= sh or s.poly.entails_ge(m - lo):
                            return Tok(("test", s.poly.norm(m)))
                        if s.poly.entails_ge(Lin.c(lo - 1) - m):
                            return ZERO
                    if self.tag(y, "nmask") and sh == 0:
                        return self.clear(I, s, x, y.n[1], False)
                    if self.tag(y, "dec") and sh == 0 and y.n[1] == lo:
                        return [(t, ZERO if l is None else self.mkview(l + 1, 0)) for t, l in self.lowest(I, s, lo)]
                    if k == 1:
                        return Tok(("test", Lin.c(sh))) if sh >= lo else ZERO
                    if k is not None and k & ((1 << self.W) - 1) == (1 << self.W) - 1:
                        return x
                if self.tag(x, "shr") and k == 1:
                    return Tok(("test", x.n[1]))
        return None

    def clear(self, I, s, x, b, flip):
        """levels without the lowest bits, bit b cleared (flip: it must be set)"""
        lo = self.view(x)[0]
        b = self.const(s, b)
        if b is None:
            return None
        if b < lo:
            return None if flip else x
        if any(self.bit(I, s, i) != 0 for i in range(lo, b)):
            return None
        if flip and self.bit(I, s, b) != 1:
            return None
        return self.mkview(b + 1, 0)

    def bitcmp(self, I, s, ins, pred, a, b):
        for x, y in ((a, b), (b, a)):
            if self.view(x) and self.const(s, y) == 0 and pred in ("eq", "ne"):
                return self.zero(I, s, self.view(x)[0], pred == "eq")
            if self.view(x) and self.const(s, y) == 0 and pred == "ugt" and x is a:
                return self.zero(I, s, self.view(x)[0], False)
            if self.tag(x, "test") and isinstance(y, Lin):
                y = s.poly.norm(y)
                want = None
                if y == ZERO:
                    want = {"ne": True, "eq": False, "ugt": True}.get(pred)
                elif y == ONE:
                    want = {"eq": True, "ne": False}.get(pred)
                if want is None:
                    return None
                return [(t, r == want) for t, r in self.test(I, s, x.n[1])]
            if self.tag(x, "test") and self.tag(y, "mask") and s.poly.entails_eq(x.n[1] - y.n[1]) and pred in ("eq", "ne"):
                return [(t, r == (pred == "eq")) for t, r in self.test(I, s, x.n[1])]
        return None

    def zero(self, I, s, lo, eq):
        """is the part zero?"""
        if any(self.bit(I, s, b) == 1 for b in range(lo, self.W)):
            return [(s, not eq)]
        free = [b for b in range(lo, self.W) if self.bit(I, s, b) is None]
        if not free:
            return [(s, eq)]
        t = s.copy()
        for b in free:
            I.set_fact(t, "bit", (Lin.c(b),), 0)
        I.set_fact(s, "nz", (Lin.c(lo),), 1)
        self.settle(I, t)
        return ([] if self.dead(I, t) else [(t, eq)]) + [(s, not eq)]

    def test(self, I, s, b):
        out = []
        for t, r in I.split_fact(s, "bit", (s.poly.norm(b),)):
            if not r:
                if self.dead(I, t):
                    continue
                self.settle(I, t)
            out.append((t, r))
        return out

    def settle(self, I, s):
        for _ in range(self.W + 1):
            g = s.ghost["g"]
            if I.get_fact(s, "bit", (s.poly.norm(g),)) != 0:
                return
            s.ghost["g"] = g + 1

    def head(self, I, s):
        self.settle(I, s)
        if I.mode == "fix":
            for k in [k for k in s.facts if k[0] in ("bit", "nz") and s.poly.entails_ge(s.ghost["g"] - k[1][0] - 1)]:
                del s.facts[k]

    def call(self, I, s, ins, name, dem, args):
        if name.startswith("llvm.cttz") and self.view(args[0]):
            lo, sh = self.view(args[0])
            w = int(name.rsplit(".i", 1)[1])
            return [(t, Lin.c(l - sh if l is not None else w)) for t, l in self.lowest(I, s, lo)]
        if name.startswith("llvm.ctpop") and self.view(args[0]):
            lo, _ = self.view(args[0])
            todo = [(s, 0)]
            if len([b for b in range(lo, self.W) if self.bit(I, s, b) is None]) > 4:
                return [(s, I.fresh("pop", lossy=True))]
            for b in range(lo, self.W):
                todo = [(u, n + int(r)) for t, n in todo for u, r in self.test(I, t, Lin.c(b))]
            return [(t, Lin.c(n)) for t, n in todo]
        if name != "evi":
            return None
        b, g = args[1], s.ghost["g"]
        I.need(s, True if s.poly.bounds(b, 0, self.W - 1) else None, "range", "bit number %s of a %d-bit value" % (I.show(s, b), self.W), ins)
        self.settle(I, s)
        g = s.ghost["g"]
        I.need_eq(s, b, g, "order", "a bit is skipped, repeated or out of order", ins)
        I.need(s, I.get_fact(s, "bit", (s.poly.norm(b),)) == 1 or None, "set", "the function is called for a bit that is not known to be set", ins)
        s.ghost["g"] = g + 1
        return [(s, None)]

    def mode(self, I, s):
        # the accounted prefix is a constant: one loop state per bit
        g = s.poly.norm(s.ghost["g"])
        return (int(g.k),) if g.is_const() and 0 <= g.k <= self.W else ()

    def exit(self, I, s, kind, val):
        self.settle(I, s)
        I.need_eq(s, s.ghost["g"], Lin.c(self.W), "complete", "bits accounted for")


class Has(Bits):
    def exit(self, I, s, kind, val):
        if self.tag(val, "test"):
            I.need_eq(s, val.n[1], S("$bit"), "bit", "the wrong bit is tested")
            return
        for t, z in I.split_eq(s, val):
            r = I.get_fact(t, "bit", (t.poly.norm(S("$bit")),))
            I.need(t, r == (0 if z else 1) or None, "bit", "has_bit_set returns %s without the bit being %s" % (not z, "clear" if z else "set"))


def mk(cls, w):
    def make():
        m = cls()
        m.W = w
        return m
    return make


def run():
    c = Check("A14", "bit automaton: the function is called for bit b only when b is the next unaccounted bit and known to be set; every bit of the type is accounted for; shifts stay inside the width")
    c.min_sites = 20
    m = c.module("bits.cc")
    for w in (8, 16, 32, 64):
        c.analyse(m, "bs%d" % w, mk(Bits, w))
        c.analyse(m, "hb%d" % w, mk(Has, w))
    return c.finish()


if __name__ == "__main__":
    main(run)
