#!/usr/bin/env python3
"""A10 erase / erase_if / erase_duplicates: exactly the specified elements disappear, the others keep their order."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from pipespec import *
import stdalg


class Base(Monitor):
    taint = True
    can_bound = True
    verdict = "R1"        # R1: predicate, E: equal to X, U: equal to the last kept
    sorts = False
    custom = False        # the caller passed comparator and equality
    window = False

    def bind(self, I, s, f):
        n = S("$NA")
        s.poly.add_ge(n)
        s.rinfo["A"] = RInfo(n * 8, "input", es=8)
        s.rinfo["X"] = RInfo(Lin.c(8), "input", es=8)
        self.lo, self.hi = ZERO, n
        if self.window:
            self.lo, self.hi = S("$i"), S("$j")
            for x in (self.lo, self.hi - self.lo, n - self.hi):
                s.poly.add_ge(x)
        v = {"a": Ptr("A"), "ae": Ptr("A", n * 8), "x": Ptr("X"), "i": self.lo, "j": self.hi}
        for a in f.fn.args:
            f.regs[a["id"]] = v[a["name"]]
        s.ghost["sorted"] = 0
        self.begin(I, s)

    def init_cell(self, I, s, region, off, size, ty):
        return Ptr("val:X", ZERO) if region == "X" and size == 8 else None

    def src(self, s, q):
        return Ptr("val:S" if s.ghost["sorted"] else "val:V", q)

    def eqfact(self, I, s, a, b):
        r = I.get_fact(s, "eq", (a, b))
        return I.get_fact(s, "eq", (b, a)) if r is None else r

    def dropped(self, I, s, v, last):
        """True / False / None: is element v removed"""
        if self.sorts and not s.ghost["sorted"]:
            return None
        if self.verdict == "R1":
            r = I.get_fact(s, "p1", (v,))
        elif self.verdict == "E":
            r = self.eqfact(I, s, v, Ptr("val:X", ZERO))
        else:
            r = 0 if last is None else self.eqfact(I, s, v, last)
        return None if r is None else bool(r)

    def call(self, I, s, ins, name, dem, args):
        n = stdalg.alg(dem)
        if n in ("sort", "stable_sort"):
            return self.sort(I, s, ins, dem, n, args)
        h = getattr(self, "c_" + name, None)
        if h is None:
            return None
        r = h(I, s, ins, args)
        return [(s, None)] if r is None else r

    def sort(self, I, s, ins, dem, n, args):
        if self.custom:
            I.need(s, stdalg.targs(dem) > 1 or None, "wrong-order", "std::%s without the comparator the caller passed" % n, ins)
        c = []
        for p in args[:2]:
            I.need(s, (isinstance(p, Ptr) and p.r == "A") or None, "sort-range", "std::%s on something else than the container" % n, ins, (p,))
            c.append(s.poly.norm(p.o).divexact(8))
        I.need_eq(s, c[0], self.lo, "sort-range", "the sorted part begins at %s" % I.show(s, c[0]), ins)
        I.need_eq(s, c[1], self.hi, "sort-range", "the sorted part ends at %s" % I.show(s, c[1]), ins)
        I.need(s, self.sorts or None, "order-kept", "the container is sorted", ins)
        self.sorted(I, s, ins)
        return [(s, None)]

    def token(self, v):
        return isinstance(v, Ptr) and isinstance(v.r, str) and v.r.startswith("val:")

    def c_pp(self, I, s, ins, args):
        I.need(s, self.token(args[1]) or None, "value", "the predicate gets no element (%s)" % I.show(s, args[1]), ins, (args[1],))
        out = []
        for t, v in I.split_fact(s, "p%d" % int(args[0].k), (args[1],)):
            self.settle(I, t)
            out.append((t, Lin.c(int(v))))
        return out

    def c_peq(self, I, s, ins, args):
        I.need(s, not self.custom or None, "wrong-order", "elements are compared with operator== although the caller passed an equality", ins)
        return self.c_peqc(I, s, ins, args)

    def c_peqc(self, I, s, ins, args):
        for x in args:
            I.need(s, self.token(x) or None, "value", "the equality gets no element (%s)" % I.show(s, x), ins, (x,))
        a, b = args
        if a.r == b.r and s.poly.entails_eq(a.o - b.o):
            return [(s, ONE)]
        r = self.eqfact(I, s, a, b)
        out = []
        for t, v in ([(s, r)] if r is not None else I.split_fact(s, "eq", (a, b))):
            self.settle(I, t)
            out.append((t, Lin.c(int(v))))
        return out

    def settle(self, I, s):
        pass

    def head(self, I, s):
        self.settle(I, s)


class Compact(Base):
    """cells [lo, w) hold the kept elements, source elements before g are accounted for, d cells are gone"""
    def begin(self, I, s):
        s.ghost["w"] = s.ghost["g"] = self.lo
        s.ghost["d"] = ZERO
        s.ghost["last"] = None

    def sorted(self, I, s, ins):
        I.need(s, (s.poly.entails_eq(s.ghost["g"] - self.lo) and s.poly.entails_eq(s.ghost["d"])) or None, "sort-first", "sorted after elements were moved", ins)
        s.ghost["sorted"] = 1
        self.settle(I, s)

    def settle(self, I, s):
        for _ in range(6):
            w, g, d = s.ghost["w"], s.ghost["g"], s.ghost["d"]
            if not s.poly.entails_ge(self.hi - g - 1):
                return
            v = self.src(s, g)
            r = self.dropped(I, s, v, s.ghost["last"])
            if r is None or not r and not s.poly.entails_eq(w - g + d):
                return
            s.ghost["g"] = g + 1
            if not r:
                s.ghost["w"] = w + 1
                s.ghost["last"] = v

    def cell(self, I, s, ins, p):
        c = s.poly.norm(p.o).divexact(8)
        I.need(s, c is not None or None, "element-identity", "not an element boundary", ins, (p,))
        ok = s.poly.entails_ge(c) and s.poly.entails_ge(S("$NA") - s.ghost["d"] - c - 1)
        I.need(s, True if ok else None, "in-range", "element %s is outside the container" % I.show(s, c), ins, (c,))
        return c

    def content(self, I, s, c):
        self.settle(I, s)
        w, g, d = s.ghost["w"], s.ghost["g"], s.ghost["d"]
        if s.poly.entails_ge(c - g + d):
            if s.poly.entails_ge(c + d - self.hi):
                return Ptr("val:V", c + d)
            if s.poly.entails_ge(self.hi - c - d - 1):
                return self.src(s, c + d)
            return Ptr("val:?", c)
        if s.poly.entails_eq(w - g + d) and s.poly.entails_eq(d):
            return self.src(s, c) if s.poly.entails_ge(c - self.lo) else Ptr("val:?", c)
        if s.poly.entails_eq(c - w + 1) and s.ghost["last"] is not None:
            return s.ghost["last"]
        if s.poly.entails_ge(self.lo - c - 1):
            return Ptr("val:V", c)
        return Ptr("val:?", c)

    def on_load(self, I, s, ins, p, size):
        if p.r != "A":
            return None
        return [(s, self.content(I, s, self.cell(I, s, ins, p)))]

    def on_store(self, I, s, ins, p, size, v):
        if p.r != "A":
            return
        s.mem.pop("A", None)
        c = self.cell(I, s, ins, p)
        self.settle(I, s)
        w, g, d = s.ghost["w"], s.ghost["g"], s.ghost["d"]
        if isinstance(v, Lin) and v.is_const() and v.k == -1:       # moved from
            I.need(s, (s.poly.entails_ge(c - w) and s.poly.entails_ge(g - d - c - 1)) or None, "moved", "an element that is still needed is moved away", ins, (c,))
            return
        x = self.src(s, g)
        ok = s.poly.entails_eq(c - w) and s.poly.entails_ge(self.hi - g - 1) and isinstance(v, Ptr) and v.r == x.r and s.poly.entails_eq(v.o - x.o) \
            and self.dropped(I, s, x, s.ghost["last"]) is False
        I.need(s, True if ok else None, "content", "cell %s gets %s; next is element %s in cell %s" % (I.show(s, c), I.show(s, v), I.show(s, x), I.show(s, w)), ins, (c, v))
        s.ghost["w"] = w + 1
        s.ghost["g"] = g + 1
        s.ghost["last"] = x

    def c_ec_erase(self, I, s, ins, args):
        self.settle(I, s)
        w, g, d = s.ghost["w"], s.ghost["g"], s.ghost["d"]
        f, l = [s.poly.norm(x.o).divexact(8) for x in args[1:3]]
        I.need_ge(s, S("$NA") - d - l, "in-range", "elements behind the end are erased", ins)
        I.need_ge(s, l - f, "in-range", "erase with end before begin", ins)
        if not s.poly.entails_eq(l - f):
            I.need_eq(s, f, w, "erased", "the erased part begins at %s" % I.show(s, f), ins)
            I.need_ge(s, g - d - l, "erased", "elements are erased that were not selected", ins)
            I.need_eq(s, l, g - d, "erased", "the erased part ends at %s" % I.show(s, l), ins)
        s.ghost["d"] = d + l - f
        return [(s, Ptr("A", (S("$NA") - s.ghost["d"]) * 8))]

    def mode(self, I, s):
        w, g, d = s.ghost["w"], s.ghost["g"], s.ghost["d"]
        return (s.poly.entails_eq(w - g + d), s.poly.entails_ge(g - self.hi), s.ghost["last"] is None)

    def exit(self, I, s, kind, val):
        self.settle(I, s)
        w, g, d = s.ghost["w"], s.ghost["g"], s.ghost["d"]
        I.need(s, kind == "return" or None, "no-throw", "throws")
        I.need_ge(s, g - self.hi, "complete", "element %s is not decided" % I.show(s, g))
        I.need_eq(s, w, g - d, "complete", "elements that were selected are still there")
        I.need(s, (not self.sorts or bool(s.ghost["sorted"]) or s.poly.entails_ge(self.lo + 1 - self.hi)) or None, "sort-first", "the container is not sorted")


class Exact(Base):
    """bounded slices: the content is a list"""
    def bound(self, I, s, n):
        if not I.assume_eq(s, S("$NA") - n):
            return False
        return True

    def bind(self, I, s, f):
        Base.bind(self, I, s, f)

    def begin(self, I, s):
        s.ghost["c"] = None

    def c_(self, I, s):
        if s.ghost["c"] is None:
            n = s.poly.norm(S("$NA"))
            s.ghost["c"] = tuple(("V", k) for k in range(n.k))
        return s.ghost["c"]

    def tok(self, x):
        return Lin.c(-1) if x is None else Ptr("val:" + x[0], Lin.c(x[1]))

    def idx(self, I, s, ins, p, hi):
        c = s.poly.norm(p.o).divexact(8) if isinstance(p, Ptr) and p.r == "A" else None
        if c is not None and not c.is_const():
            # window bounds: enumerate
            return None
        I.need(s, c is not None or None, "element-identity", "not an element boundary", ins, (p,))
        I.need(s, 0 <= c.k < hi or None, "in-range", "element %d of %d" % (c.k, hi), ins, (c,))
        return c.k

    def split_window(self, I, s):
        """[(state)] with the window bounds made concrete"""
        out = [s]
        for q in (self.lo, self.hi):
            nxt = []
            for t in out:
                for k in range(0, 9):
                    u = t.copy()
                    if I.assume_eq(u, q - k):
                        nxt.append(u)
            out = nxt
        return out

    def sorted(self, I, s, ins):
        c = list(self.c_(I, s))
        i, j = s.poly.norm(self.lo), s.poly.norm(self.hi)
        if not i.is_const() or not j.is_const():
            s.lossy_path = True
            return
        c[i.k:j.k] = [("S", k) for k in range(i.k, j.k)]
        s.ghost["c"] = tuple(c)
        s.ghost["sorted"] = 1

    def call(self, I, s, ins, name, dem, args):
        if self.window and not s.poly.norm(self.hi).is_const() or not s.poly.norm(self.lo).is_const():
            out = []
            for t in self.split_window(I, s):
                r = self.call(I, t, ins, name, dem, args)
                if r is None:
                    return None
                out += r
            return out
        return Base.call(self, I, s, ins, name, dem, args)

    def on_load(self, I, s, ins, p, size):
        if p.r != "A":
            return None
        c = self.c_(I, s)
        k = self.idx(I, s, ins, p, len(c))
        if k is None:
            out = []
            for t in self.split_window(I, s):
                out += self.on_load(I, t, ins, p, size)
            return out
        return [(s, self.tok(c[k]))]

    def on_store(self, I, s, ins, p, size, v):
        if p.r != "A":
            return
        s.mem.pop("A", None)
        c = list(self.c_(I, s))
        k = self.idx(I, s, ins, p, len(c))
        if k is None:
            s.lossy_path = True
            return
        if isinstance(v, Ptr) and isinstance(v.r, str) and v.r.startswith("val:") and s.poly.norm(v.o).is_const():
            c[k] = (v.r[4:], s.poly.norm(v.o).k)
        else:
            c[k] = None
        s.ghost["c"] = tuple(c)

    def c_ec_erase(self, I, s, ins, args):
        c = list(self.c_(I, s))
        f, l = [s.poly.norm(x.o).divexact(8) for x in args[1:3]]
        I.need(s, 0 <= f.k <= l.k <= len(c) or None, "in-range", "erase of [%s, %s) in %d elements" % (f.k, l.k, len(c)), ins)
        del c[f.k:l.k]
        s.ghost["c"] = tuple(c)
        return [(s, Ptr("A", Lin.c(len(c) * 8)))]

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "throws")
        for t in self.split_window(I, s) if self.window else [s]:
            n, i, j = [t.poly.norm(x).k for x in (S("$NA"), self.lo, self.hi)]
            if self.sorts and j - i > 1:
                I.need(t, bool(t.ghost["sorted"]) or None, "sort-first", "the container is not sorted")
            want = [("V", k) for k in range(i)]
            last = None
            for k in range(i, j):
                v = self.src(t, Lin.c(k))
                r = self.dropped(I, t, v, last) if j - i > 1 or self.verdict != "U" else False
                I.need(t, r is not None or None, "decided", "the result does not depend on whether element %d is selected" % k)
                if not r:
                    want.append((v.r[4:], k))
                    last = v
            want += [("V", k) for k in range(j, n)]
            got = list(self.c_(I, t))
            if self.sorts and not t.ghost["sorted"]:
                want = [("V", k) for _, k in want]
            I.need(t, got == want or None, "content", "the container holds %s instead of %s" % (got, want))


def mk(cls, **kw):
    def make():
        m = cls()
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    return make


class SetErase(Monitor):
    """the element itself is erased from the set, once"""
    taint = True

    def bind(self, I, s, f):
        s.rinfo["X"] = RInfo(Lin.c(8), "input", es=8)
        for a, r in zip(f.fn.args, ("SET", "X")):
            f.regs[a["id"]] = Ptr(r)
        s.ghost["n"] = 0
        s.poly.add_ge(S("$SZ"))

    def init_cell(self, I, s, region, off, size, ty):
        return Ptr("val:X", ZERO) if region == "X" and size == 8 else None

    def call(self, I, s, ins, name, dem, args):
        m = BOX.match(dem)
        if m:
            if m.group(2) == "erase" and "pv const&" in dem:
                v = I.load(s, ins, args[1], 8, "i64")
                I.need(s, (isinstance(args[0], Ptr) and args[0].r == "SET") or None, "container", "another set is changed", ins)
                I.need(s, (isinstance(v, Ptr) and v.r == "val:X") or None, "value", "another element is erased", ins, (v,))
                s.ghost["n"] = s.ghost["n"] + 1
                return [(s, Lin.c(1))]
            if m.group(2) == "clear":
                I.need(s, None, "erased", "all elements of the set are erased", ins)
            if m.group(2) == "size":
                return [(s, S("$SZ"))]
            if m.group(2) == "empty":
                return [(t, Lin.c(int(r))) for t, r in I.split_eq(s, S("$SZ"))]
            if m.group(2) in ("count", "contains"):
                return [(t, Lin.c(int(r))) for t, r in I.split_fact(s, "has", (ZERO,))]
            s.lossy_path = True
            return [(s, None if ins["ty"] == "void" else UNDEF)]
        return None

    def exit(self, I, s, kind, val):
        ok = s.ghost["n"] == 1 or s.ghost["n"] == 0 and (s.poly.entails_eq(S("$SZ")) or I.get_fact(s, "has", (ZERO,)) == 0)
        I.need(s, ok or None, "erased", "the element is erased %d times" % s.ghost["n"])


ENTRIES = [("er", dict(verdict="E")), ("er_rv", dict(verdict="E")), ("ei", {}), ("ei_lv", {}),
           ("ed", dict(verdict="U", sorts=True)), ("ed_cmp", dict(verdict="U", sorts=True, custom=True)),
           ("ed_sub", dict(verdict="U", sorts=True, custom=True, window=True))]


def run():
    c = Check("A10", "compaction automaton: every element written into the container is the next kept element in its next cell, exactly the selected elements are erased; erase_duplicates sorts exactly the given part first")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 40
    c.assumptions = ["predicate and equality are pure", "the container's erase removes exactly the given range (by contract)",
                     "std::sort permutes its range into ascending order (by contract)", "std::set erases by key (by contract)"]
    m = c.module("erase.cc", keep="keep_alg.txt")
    jobs = [lambda e=e, k=k: c.analyse(m, e, mk(Compact, **k), confirm=mk(Exact, **k), budget=100) for e, k in ENTRIES if not only or e in only.split(",")]
    jobs += [lambda e=e: c.analyse(m, e, SetErase) for e in ("es", "es_rv") if not only or e in only.split(",")]
    c.par(jobs)
    return c.finish()


if __name__ == "__main__":
    main(run)
