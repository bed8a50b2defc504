#!/usr/bin/env python3
"""P01 text views: every view lies inside its text and has the documented extent."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *
from text import Txt

N, MM = S("$N"), S("$M")


class View(Txt):
    """one result view, checked by spec(I, s, ins, begin, end)"""
    results = 1

    def start(self, I, s):
        s.ghost["n"] = 0
        for k, (t, p, x, d) in self.scanners.items():
            self.reset(s, k, ZERO if d > 0 else S(self.texts[t]))

    def c_out(self, I, s, ins, args):
        p, n = args
        s.ghost["n"] += 1
        if isinstance(p, Lin):
            I.need(s, True if s.poly.entails_eq(n) else None, "view-inside", "a null view of %s bytes" % I.show(s, n), ins, (n,))
            return [(t, None) for t in self.null(I, s, ins)]
        I.need(s, isinstance(p, Ptr) and p.r == "T", "view-inside", "the result is not a view of the text (%s)" % I.show(s, p), ins, (p,))
        o = p.o
        I.need_ge(s, o, "view-inside", "view starts before the text", ins)
        I.need_ge(s, n, "view-inside", "view with a wrapped length", ins)
        I.need_ge(s, N - o - n, "view-inside", "view ends behind the text", ins)
        return [(t, None) for t in self.spec(I, s, ins, o, o + n)]

    def null(self, I, s, ins):
        return [s]

    def spec(self, I, s, ins, b, e):
        return [s]

    def umin(self, I, s, a, n):
        return [(t, n if ge else a) for t, ge in self.usplit(I, s, a, n)]

    def extent(self, I, s, ins, b, e, xb, xe):
        """[b, e) must be [xb, xe); empty views may start anywhere"""
        I.need_eq(s, e - b, xe - xb, "extent", "length of the view", ins)
        for t, z in I.split_eq(s.copy(), xe - xb):
            if not z:
                I.need_eq(t, b, xb, "extent", "start of the view", ins)

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "ends with an exception")
        I.need(s, s.ghost["n"] == self.results or None, "returns", "%d results instead of %d" % (s.ghost["n"], self.results))


def X(n):
    return S("$" + n)


class SubPs(View):
    def spec(self, I, s, ins, b, e):
        for t, p in self.umin(I, s, X("x"), N):
            for u, l in self.umin(I, t, X("y"), N - p):
                self.extent(I, u, ins, b, e, p, p + l)
        return [s]


class SubBe(View):
    def spec(self, I, s, ins, b, e):
        for t, p in self.umin(I, s.copy(), X("x"), N):
            for u, q in self.umin(I, t, X("y"), N):
                for v, ok in I.split_ge(u, q - p):
                    self.extent(I, v, ins, b, e, p, q if ok else p)
        return [s]


class SubB(View):
    def spec(self, I, s, ins, b, e):
        for t, p in self.umin(I, s.copy(), X("x"), N):
            self.extent(I, t, ins, b, e, p, N)
        return [s]


class SubF(View):
    def spec(self, I, s, ins, b, e):
        for t, p in self.umin(I, s.copy(), X("x"), N):
            for u, m in I.split_eq(t, X("y") - (2 ** 31 - 1)):
                if m:
                    self.extent(I, u, ins, b, e, p, N)
                else:
                    for v, l in self.umin(I, u, X("y"), N - p):
                        self.extent(I, v, ins, b, e, p, p + l)
        return [s]


class Whole(View):
    def spec(self, I, s, ins, b, e):
        self.extent(I, s, ins, b, e, ZERO, N)
        return [s]


class Views(Whole):
    results = 6


class Plus(View):
    def start(self, I, s):
        View.start(self, I, s)
        s.poly.add_ge(X("k"))
        s.poly.add_ge(N - X("k"))

    def spec(self, I, s, ins, b, e):
        I.need_eq(s, b, X("k"), "extent", "start of the advanced view", ins)
        I.need_eq(s, e, N, "extent", "end of the advanced view", ins)
        return [s]


class Inc(View):
    def start(self, I, s):
        View.start(self, I, s)
        s.poly.add_ge(N - 1)

    def spec(self, I, s, ins, b, e):
        I.need_eq(s, b, ONE, "extent", "start of the advanced view", ins)
        I.need_eq(s, e, N, "extent", "end of the advanced view", ins)
        return [s]

    def bound(self, I, s, n):
        return View.bound(self, I, s, max(n, 1))


def space(self, I, s, pos):
    a, b = self.is_c(I, s, "T", pos, 32), self.is_c(I, s, "T", pos, 10)
    if a is True or b is True:
        return True
    if a is False and b is False:
        return False
    return None


class Trim(View):
    front = back = True
    scanners = {"f": ("T", space, None, 1), "b": ("T", space, None, -1)}

    def spec(self, I, s, ins, b, e):
        out = []
        for t, z in I.split_ge(s, b - e):
            f, g = self.absorb(I, t, "f"), self.absorb(I, t, "b")
            if z:
                allsp = (self.front and t.poly.entails_ge(f - N)) or (self.back and t.poly.entails_ge(-g)) or (self.front and self.back and t.poly.entails_ge(f - g))
                I.need(t, True if allsp else None, "trim", "an empty result for a text that has other characters than blanks", ins)
            else:
                if self.front:
                    I.need(t, True if t.poly.entails_ge(f - b) else None, "trim-front", "a non-blank character is cut off at the front", ins)
                    I.need(t, True if self.refuted(I, t, "f", b) else None, "trim-front", "the result starts with a blank", ins)
                else:
                    I.need_eq(t, b, ZERO, "trim-front", "start of the view", ins)
                if self.back:
                    I.need(t, True if t.poly.entails_ge(e - g) else None, "trim-back", "a non-blank character is cut off at the end", ins)
                    I.need(t, True if self.refuted(I, t, "b", e - 1) else None, "trim-back", "the result ends with a blank", ins)
                else:
                    I.need_eq(t, e, N, "trim-back", "end of the view", ins)
            out.append(t)
        return out


class Front(Trim):
    back = False


class Back(Trim):
    front = False


class Until(View):
    """[0, e) free of the separator, which follows unless the text ends"""
    scanners = {"s": ("T", lambda m, I, s, p: {True: False, False: True}.get(m.is_c(I, s, "T", p, m.sep(s))), lambda m, s: m.sep(s), 1)}
    cr = False

    def sep(self, s):
        return X("sep")

    def spec(self, I, s, ins, b, e):
        out = []
        for t, z in I.split_eq(s, e - b):
            if not z:
                I.need_eq(t, b, ZERO, "extent", "start of the view", ins)
            e2 = e if not z else ZERO
            I.need(t, self.ends(I, t, e2), "extent", "the view does not end at the separator or the end of the text", ins)
            h = self.absorb(I, t, "s")
            I.need(t, True if t.poly.entails_ge(h - e2) else None, "separator-inside", "the view may contain the separator", ins)
            out.append(t)
        return out

    def ends(self, I, t, e):
        if not self.cr:
            return self.stop(I, t, e)
        # one trailing CR is removed
        if self.is_c(I, t, "T", e, 13) is True and self.stop(I, t, e + 1):
            return True
        if self.stop(I, t, e) and (t.poly.entails_eq(e) or self.is_c(I, t, "T", e - 1, 13) is False):
            return True
        return None

    def stop(self, I, t, e):
        if t.poly.entails_eq(e - N) or self.is_c(I, t, "T", e, self.sep(t)) is True:
            return True
        return None


class Line(Until):
    cr = True

    def sep(self, s):
        return Lin.c(10)


class Strip(Line):
    scanners = {}

    def stop(self, I, t, e):
        return True if t.poly.entails_eq(e - N) else None

    def spec(self, I, s, ins, b, e):
        out = []
        for t, z in I.split_eq(s, e - b):
            if not z:
                I.need_eq(t, b, ZERO, "extent", "start of the view", ins)
            I.need(t, self.ends(I, t, e if not z else ZERO), "extent", "not the text without one final carriage return", ins)
            out.append(t)
        return out


# ---------------------------------------------------------------- comparisons
def eqpair(self, I, s, p):
    a, b = self.cell(I, s, "T", p), self.cell(I, s, "U", p)
    if a is None or b is None:
        return None
    if s.poly.entails_eq(a - b):
        return True
    return False if s.poly.entails_ne(a - b) else None


class Cmp(Txt):
    texts = {"T": "$N", "U": "$M"}
    scanners = {"e": ("T", eqpair, None, 1)}
    neg = False

    def start(self, I, s):
        s.ghost["n"] = 0
        for k in self.scanners:
            self.reset(s, k, ZERO)

    def prefix_eq(self, I, s, n):
        if s.poly.entails_eq(n):
            return True
        if I.get_fact(s, "memeq", (Ptr("T"), Ptr("U"), n)) == 1 or I.get_fact(s, "memeq", (Ptr("U"), Ptr("T"), n)) == 1:
            return True
        return s.poly.entails_ge(self.absorb(I, s, "e") - n)

    def prefix_ne(self, I, s, n):
        if I.get_fact(s, "memeq", (Ptr("T"), Ptr("U"), n)) == 0 or I.get_fact(s, "memeq", (Ptr("U"), Ptr("T"), n)) == 0:
            return True
        for o in list(s.mem.get("T", {})):
            if eqpair(self, I, s, o) is False and s.poly.entails_ge(o) and s.poly.entails_ge(n - o - 1):
                return True
        return False

    def c_outb(self, I, s, ins, args):
        s.ghost["n"] += 1
        out = []
        for t, z in I.split_eq(s, args[0]):
            r = bool(z) == self.neg
            k = self.yes(I, t, ins) if r else self.no(I, t, ins)
            I.need(t, True if k else None, "relation", "%s is reported although %s" % (r, "nothing establishes it" ), ins)
            out.append((t, None))
        return out

    def yes(self, I, s, ins):
        return s.poly.entails_eq(N - MM) and self.prefix_eq(I, s, N)

    def no(self, I, s, ins):
        return s.poly.entails_ne(N - MM) or self.prefix_ne(I, s, N)

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "ends with an exception")
        I.need(s, s.ghost["n"] == 1 or None, "returns", "no result")


class Ne(Cmp):
    neg = True


class Lt(Cmp):
    def first(self, I, s):
        """sign of T[h] - U[h] at the first difference h, or None"""
        h = self.absorb(I, s, "e")
        a, b = self.cell(I, s, "T", h), self.cell(I, s, "U", h)
        if a is None or b is None or not s.poly.entails_ge(N - h - 1) or not s.poly.entails_ge(MM - h - 1):
            return None
        if s.poly.entails_ge(b - a - 1):
            return -1
        return 1 if s.poly.entails_ge(a - b - 1) else None

    def yes(self, I, s, ins):
        if self.first(I, s) == -1:
            return True
        h = self.absorb(I, s, "e")
        return s.poly.entails_ge(h - N) and s.poly.entails_ge(MM - N - 1)

    def no(self, I, s, ins):
        if self.first(I, s) == 1:
            return True
        h = self.absorb(I, s, "e")
        return s.poly.entails_ge(h - MM) and s.poly.entails_ge(N - MM)


class Starts(Cmp):
    def yes(self, I, s, ins):
        return s.poly.entails_ge(N - MM) and self.prefix_eq(I, s, MM)

    def no(self, I, s, ins):
        return s.poly.entails_ge(MM - N - 1) or (self.prefix_ne(I, s, MM) and s.poly.entails_ge(N - MM))


class Contains(Cmp):
    scanners = {}

    def yes(self, I, s, ins):
        return I.get_fact(s, "occurs", (Ptr("T"), N, Ptr("U"), MM)) == 1 or self.by_bytes(I, s, True)

    def no(self, I, s, ins):
        return I.get_fact(s, "occurs", (Ptr("T"), N, Ptr("U"), MM)) == 0 or self.by_bytes(I, s, False)

    def by_bytes(self, I, s, want):
        """the comparisons made on this path settle the question (bounded slices)"""
        if I.mode != "unroll":
            return False
        for t in self.values(I, s, "$N", "$M"):
            n, m = int(t.poly.norm(N).k), int(t.poly.norm(MM).k)
            hit = [self.same_at(I, t, "T", k, "U", m) for k in range(n - m + 1)]
            if want and True not in hit or not want and any(h is not False for h in hit):
                return False
        return True


def absent(self, I, s, j):
    """the needle does not start at j"""
    if I.get_fact(s, "memeq", (Ptr("T", s.poly.norm(j)), Ptr("U"), MM)) == 0:
        return True
    return None


class Offset(Cmp):
    scanners = {"a": ("T", absent, None, 1)}

    def head(self, I, s):
        Cmp.head(self, I, s)
        s.ghost["slack"] = s.ghost["hi:a"] - (N - MM) - 1

    def start(self, I, s):
        Cmp.start(self, I, s)
        s.poly.add_ge(MM - 1)

    def bound(self, I, s, n):
        return Cmp.bound(self, I, s, max(n, 1))

    def mode(self, I, s):
        # every position where the needle still fits has been ruled out
        return s.poly.entails_ge(s.ghost["hi:a"] - (N - MM) - 1)

    def c_outn(self, I, s, ins, args):
        s.ghost["n"] += 1
        r = args[0]
        out = []
        for t, nn in I.split_ge(s, r):
            h = self.absorb(I, t, "a")
            whole = (Ptr("T"), N, Ptr("U"), MM)
            if nn:
                I.need_ge(t, N - r - 1, "offset-range", "the offset lies behind the text", ins)
                at = I.get_fact(t, "first", whole)
                ok = isinstance(at, Ptr) and t.poly.entails_eq(at.o - r)
                if not ok and I.mode == "unroll":
                    ok = all(self.exact(I, u, int(u.poly.norm(r).k)) for u in self.values(I, t, "$N", "$M") if u.poly.norm(r).is_const())
                if not ok:
                    I.need(t, True if t.poly.entails_ge(h - r) or t.poly.entails_ge(h - (N - MM) - 1) else None, "first-occurrence", "an earlier occurrence may be skipped", ins)
                    f = t.poly.entails_eq(MM) or I.get_fact(t, "memeq", (Ptr("T", t.poly.norm(r)), Ptr("U"), MM)) == 1
                    I.need(t, True if f and t.poly.entails_ge(N - r - MM) else None, "occurrence", "the needle does not occur at the offset", ins)
            else:
                I.need_eq(t, r, Lin.c(-1), "not-found", "the value for 'not found'", ins)
                ok = t.poly.entails_ge(MM - N - 1) or t.poly.entails_ge(h - N) or t.poly.entails_ge(h - (N - MM) - 1) or I.get_fact(t, "occurs", whole) == 0
                if not ok and I.mode == "unroll":
                    ok = all(self.exact(I, u, None) for u in self.values(I, t, "$N", "$M"))
                I.need(t, True if ok else None, "all-searched", "an occurrence may be missed", ins)
            out.append((t, None))
        return out

    def exact(self, I, t, r):
        n, m = int(t.poly.norm(N).k), int(t.poly.norm(MM).k)
        for k in range(n - m + 1):
            h = self.same_at(I, t, "T", k, "U", m)
            if k == r:
                return h is True
            if h is not False:
                return False
        return r is None


class Valid(Txt):
    def start(self, I, s):
        s.ghost["n"] = 0

    def c_outb(self, I, s, ins, args):
        s.ghost["n"] += 1
        out = []
        for t, z in I.split_eq(s, args[0]):
            I.need(t, True if (t.poly.entails_eq(N) if z else t.poly.entails_ge(N - 1)) else None, "valid", "validity must be non-emptiness", ins)
            out.append((t, None))
        return out

    def c_outn(self, I, s, ins, args):
        I.need_eq(s, args[0], N, "length", "length()", ins)
        s.ghost["n"] += 1

    def exit(self, I, s, kind, val):
        I.need(s, s.ghost["n"] == 4 or None, "returns", "missing results")


class Nul(View):
    results = 5

    def null(self, I, s, ins):
        return [s]


def run():
    c = Check("P01", "text automaton: every byte read lies in the text, every view has exactly the documented extent, comparisons follow byte contents and lengths")
    c.min_sites = 60
    m = c.module("text.cc", "keep_text.txt")
    for e, k in (("sub_ps", SubPs), ("sub_be", SubBe), ("sub_b", SubB), ("sub_f", SubF), ("sub_fmax", SubB), ("ctor_be", Whole), ("plus", Plus), ("plus_eq", Plus), ("inc", Inc),
                 ("views", Views), ("ws_front", Front), ("ws_back", Back), ("trim", Trim), ("strip", Strip), ("until", Until), ("line", Line), ("eq", Cmp), ("ne", Ne), ("lt", Lt),
                 ("starts", Starts), ("contains", Contains), ("offset", Offset), ("valid", Valid), ("nul_trim", Nul)):
        c.analyse(m, e, k)
    return c.finish()


if __name__ == "__main__":
    main(run)
