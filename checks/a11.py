#!/usr/bin/env python3
"""A11 get_or_create / get_or_create_index / insert_sorted: found or created exactly once, at the right place."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pipespec import *
import stdalg

K = Ptr("val:K", ZERO)


def val_is(s, v, x):
    return isinstance(v, Ptr) and v.r == x.r and s.poly.entails_eq(v.o - x.o)


class Map(Monitor):
    taint = True
    index = False

    def bind(self, I, s, f):
        for r, n in (("KEY", 8), ("E", 16), ("N", 16)):
            s.rinfo[r] = RInfo(Lin.c(n), "input", es=8)
        f.regs[f.fn.args[0]["id"]] = Ptr("MAP")
        f.regs[f.fn.args[1]["id"]] = Ptr("KEY")
        s.ghost["created"] = 0
        s.ghost["made"] = 0          # calls of the factory
        s.ghost["ins"] = 0
        s.poly.add_ge(S("$SZ"))
        s.poly.add_ge(S("$IDX"))

    def init_cell(self, I, s, region, off, size, ty):
        if region == "KEY" and size == 8:
            return K
        if region == "E" and size == 8 and off.is_const():
            return K if off.k == 0 else S("$IDX") if self.index else Ptr("val:E", ZERO)
        return None

    def on_access(self, I, s, ins, ptr, size, write):
        if ptr.r == "KEY" and write:
            I.need(s, None, "key-moved", "the caller's key is changed", ins)
        if ptr.r == "E" and write:
            I.need(s, None, "present-kept", "an entry that was found is changed", ins)
        if ptr.r == "N":
            I.need(s, bool(s.ghost["created"]) or None, "created", "an entry that does not exist is used", ins)

    def key(self, I, s, ins, k):
        I.need(s, val_is(s, k, K) or None, "key", "the map is asked for another key (%s)" % I.show(s, k), ins, (k,))

    def has(self, I, s):
        if s.ghost["created"]:
            return [(s, True)]
        return I.split_fact(s, "has", (ZERO,))

    def call(self, I, s, ins, name, dem, args):
        if name == "m_find":
            self.key(I, s, ins, args[0])
            return [(t, (Ptr("N") if t.ghost["created"] else Ptr("E")) if h else Lin.c(0)) for t, h in self.has(I, s)]
        if name == "m_has":
            self.key(I, s, ins, args[0])
            return [(t, Lin.c(int(h))) for t, h in self.has(I, s)]
        if name in ("m_emplace", "m_index"):
            self.key(I, s, ins, args[0])
            out = []
            for t, h in self.has(I, s):
                t.ghost["ins"] = 0
                if h:
                    out.append((t, Ptr("N") if t.ghost["created"] else Ptr("E")))
                    continue
                t.ghost["created"] = 1
                t.ghost["ins"] = 1
                t.mem["N"] = {ZERO: (8, args[0]), Lin.c(8): (8, args[1] if name == "m_emplace" else ZERO)}
                out.append((t, Ptr("N")))
            return out
        if name == "m_inserted":
            return [(s, Lin.c(s.ghost["ins"]))]
        if name == "m_size":
            return [(s, S("$SZ") + s.ghost["created"])]
        if name == "pgen":
            n = s.ghost["made"]
            s.ghost["made"] = n + 1
            return [(s, Ptr("val:G", Lin.c(n)))]
        return None

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "throws")
        for t, h in (I.split_fact(s, "has", (ZERO,)) if not s.ghost["created"] else [(s, False)]):
            if h:
                I.need(t, not t.ghost["made"] or None, "factory", "the value is made although the key is present")
                if self.index:
                    I.need_eq(t, val, S("$IDX"), "result", "the result is not the stored index")
                else:
                    I.need(t, val_is(t, val, Ptr("E", Lin.c(8))) or None, "result", "the result is not the stored value (%s)" % I.show(t, val))
                continue
            I.need(t, bool(t.ghost["created"]) or None, "created", "the key is absent and no entry is created")
            c = t.mem.get("N", {}).get(Lin.c(8), (8, UNDEF))[1]
            if self.index:
                I.need_eq(t, c, S("$SZ"), "value", "the new entry does not hold the old size")
                I.need_eq(t, val, S("$SZ"), "result", "the result is not the old size")
            else:
                I.need(t, t.ghost["made"] == 1 or None, "factory", "the value is made %d times" % t.ghost["made"])
                I.need(t, val_is(t, c, Ptr("val:G", ZERO)) or None, "value", "the new entry does not hold the value that was made (%s)" % I.show(t, c))
                I.need(t, val_is(t, val, Ptr("N", Lin.c(8))) or None, "result", "the result is not the new value")


class Index(Map):
    index = True


class Insert(RangeMon):
    """sorted range A, element X with key $kx"""
    sorted = ("A",)
    taint = True

    def arg(self, I, s, name, ty):
        return Ptr("X") if name == "x" else RangeMon.arg(self, I, s, name, ty)

    def start(self, I, s):
        s.rinfo["X"] = RInfo(Lin.c(8), "input", es=8)
        s.ghost["sorted"] = 1
        s.ghost["at"] = None
        s.ghost["res"] = 0

    def init_cell(self, I, s, region, off, size, ty):
        if region == "X":
            return Ptr("val:X", ZERO)
        if region == "A" and size == 8:
            i = s.poly.norm(off).divexact(8)
            return None if i is None else Ptr("val:A", i)
        return None

    def on_access(self, I, s, ins, ptr, size, write):
        if ptr.r == "A":
            o = s.poly.norm(ptr.o)
            ok = s.poly.entails_ge(o) and s.poly.entails_ge(S("$NA") * 8 - o - size) and s.ghost["at"] is None
            I.need(s, True if ok else None, "in-range", "element %s is read, outside the container" % I.show(s, o.divexact(8) or o), ins, (o,))
            I.need(s, not write or None, "input-mutated", "an element is written", ins)

    def kof(self, I, s, v, ins):
        if isinstance(v, Ptr) and v.r == "val:X":
            return S("$kx")
        I.need(s, (isinstance(v, Ptr) and v.r == "val:A") or None, "value", "comparison of something that is no element", ins, (v,))
        return self.key(I, s, "A", v.o)

    def call(self, I, s, ins, name, dem, args):
        n = stdalg.alg(dem)
        if n in ("lower_bound", "upper_bound"):
            stdalg.own_order(self, I, s, ins, dem, n, 2)
            r, i, j = stdalg.whole(self, I, s, ins, args[0], args[1], "std::" + n)
            x = I.load(s, ins, args[2], 8, "i64")
            kx = self.kof(I, s, x, ins)
            p = I.fresh("lb")
            s.poly.add_ge(p - i)
            s.poly.add_ge(j - p)
            strict = 1 if n == "lower_bound" else 0
            out = []
            for t, left in I.split_ge(s, p - i - 1):
                if left and not I.assume_ge(t, kx - self.key(I, t, "A", p - 1) - strict):
                    continue
                for u, right in I.split_ge(t, j - p - 1):
                    if right and not I.assume_ge(u, self.key(I, u, "A", p) - kx - (1 - strict)):
                        continue
                    out.append((u, Ptr("A", p * ES)))
            return out
        if name in ("plt", "pnlt"):
            I.need(s, not (name == "pnlt" and self.custom_lt) or None, "wrong-order", "elements are compared with operator< although the caller passed a comparator", ins)
            return [(t, Lin.c(int(r))) for t, r in I.split_ge(s, self.kof(I, s, args[1], ins) - self.kof(I, s, args[0], ins) - 1)]
        if name == "peq":
            return [(t, Lin.c(int(r))) for t, r in I.split_eq(s, self.kof(I, s, args[1], ins) - self.kof(I, s, args[0], ins))]
        if name == "sv_insert":
            I.need(s, s.ghost["at"] is None or None, "once", "the element is inserted twice", ins)
            I.need(s, val_is(s, args[1], Ptr("val:X", ZERO)) or None, "value", "another element is inserted (%s)" % I.show(s, args[1]), ins, (args[1],))
            _, p = self.pos(I, s, args[0], ins, "insert position")
            I.need_ge(s, p, "in-range", "insert position before the container", ins)
            I.need_ge(s, S("$NA") - p, "in-range", "insert position behind the end", ins)
            kx = S("$kx")
            for t, left in I.split_ge(s.copy(), p - 1):
                if left:
                    I.need_ge(t, kx - self.key(I, t, "A", p - 1) - 1, "sorted", "the element in front of the new one is not smaller", ins)
                for u, right in I.split_ge(t, S("$NA") - p - 1):
                    if right:
                        I.need_ge(u, self.key(I, u, "A", p) - kx - 1, "sorted", "the element behind the new one is not greater", ins)
            s.ghost["at"] = p
            return [(s, Ptr("A", p * ES))]
        if name == "rpos":
            for t, z in I.split_eq(s, args[1]):
                _, p = self.pos(I, t, args[0], ins, "returned position")
                if z:
                    I.need(t, t.ghost["at"] is None or None, "result", "the element was inserted but false is returned", ins)
                    I.need_ge(t, p, "result", "the returned position is outside", ins)
                    I.need_ge(t, S("$NA") - p - 1, "result", "the element is not inserted and the end is returned", ins)
                    I.need_eq(t, self.key(I, t, "A", p), S("$kx"), "result", "not inserted although the returned element is not the element", ins)
                else:
                    I.need(t, t.ghost["at"] is not None or None, "result", "true is returned but nothing was inserted", ins)
                    I.need_eq(t, p, t.ghost["at"], "result", "the returned position is not that of the new element", ins)
            s.ghost["res"] = 1
            return [(s, None)]
        return None

    def exit(self, I, s, kind, val):
        I.need(s, (kind == "return" and bool(s.ghost["res"])) or None, "no-throw", "throws")


def run():
    c = Check("A11", "map typestate: key looked up, created only if absent, factory called once, result refers to the entry; insert_sorted: inserted between a smaller and a greater element, or an equal element is returned")
    c.min_sites = 30
    c.assumptions = ["insert_sorted: the comparator is a strict weak order whose equivalence agrees with ==, the collection is sorted", "std::lower_bound as the standard specifies"]
    m = c.module("maps.cc", keep="keep_alg.txt")
    for e in ("goc_h", "goc_u", "goc_hr", "goc_ur"):
        c.analyse(m, e, Map)
    c.analyse(m, "goi", Index)
    for e in ("is", "is_cmp"):
        c.analyse(m, e, custom(Insert, lt=e.endswith("cmp")))
    return c.finish()


if __name__ == "__main__":
    main(run)
