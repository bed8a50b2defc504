"""Contracts of library algorithms over opaque ranges (kept out of line)."""
import re
from ai import Ptr, Lin, ZERO, AnalysisError, Bottom
from common import ES, S

NAME = re.compile(r"^std::(?:ranges::)?([a-z_]+)<")


def alg(dem):
    m = NAME.match(dem)
    return m.group(1) if m else None


def targs(dem):
    """number of template arguments of the (first) template name"""
    i = dem.index("<")
    d, n = 0, 1
    for c in dem[i:]:
        if c in "<([{":
            d += 1
        elif c in ">)]}":
            d -= 1
            if d == 0:
                return n
        elif c == "," and d == 1:
            n += 1
    return n


def own_order(mon, I, s, ins, dem, n, base):
    if getattr(mon, "custom_lt", False):
        I.need(s, targs(dem) > base or None, "wrong-order", "std::%s without the comparator the caller passed" % n, ins)


def whole(mon, I, s, ins, a, b, what):
    """[a, b) as (range, i, j), inside the input range"""
    r, i = mon.pos(I, s, a, ins, what)
    r2, j = mon.pos(I, s, b, ins, what)
    I.need(s, r == r2, "range-pair", "%s: iterators of two different ranges" % what, ins)
    I.need_ge(s, j - i, "range-order", "%s: begin behind end" % what, ins)
    I.need_ge(s, i, "range-bounds", "%s: begins before the range" % what, ins)
    I.need_ge(s, S("$N" + r) - j, "range-bounds", "%s: ends behind the range" % what, ins)
    return r, i, j


def val_elem(mon, I, s, v, ins):
    """element identity of a value argument (reference)"""
    return mon.elem(I, s, v, ins, "library algorithm value")


def sort_model(mon, I, s, ins, name, dem, args):
    n = alg(dem)
    if n is None:
        return None
    if n in ("sort", "stable_sort"):
        own_order(mon, I, s, ins, dem, n, 1)
        r, i, j = whole(mon, I, s, ins, args[0], args[1], "std::" + n)
        I.need_eq(s, i, ZERO, "sort-all", "the whole container must be sorted: begin", ins)
        I.need_eq(s, j, S("$N" + r), "sort-all", "the whole container must be sorted: end", ins)
        s.mem.pop(r, None)
        s.ev(n)
        mon.on_sorted(I, s)
        return [(s, None)]
    if n in ("upper_bound", "lower_bound"):
        r, i, j = whole(mon, I, s, ins, args[0], args[1], "std::" + n)
        own_order(mon, I, s, ins, dem, n, 2)
        I.need(s, bool(s.ghost.get("sorted")) or None, "sorted-first", "binary search in a range that is not sorted", ins)
        vr, vi = val_elem(mon, I, s, args[2], ins)
        kv = mon.key(I, s, vr, vi)
        out = []
        # position p in [i, j]: keys before p compare "keep", from p on they do not
        p = I.fresh("ub")
        s.poly.add_ge(p - i)
        s.poly.add_ge(j - p)
        strict = 1 if n == "lower_bound" else 0
        for t, left in I.split_ge(s, p - i - 1):
            if left:
                k = mon.key(I, t, r, p - 1)
                if not I.assume_ge(t, kv - k - strict):
                    continue
            for u, right in I.split_ge(t, j - p - 1):
                if right:
                    k = mon.key(I, u, r, p)
                    if not I.assume_ge(u, k - kv - (1 - strict)):
                        continue
                try:
                    # an element of the searched part bounds p from the sorted axiom
                    if vr == r:
                        if u.poly.entails_ge(vi - i) and u.poly.entails_ge(j - vi - 1):
                            if n == "upper_bound":
                                u.poly.add_ge(p - vi - 1)
                            else:
                                u.poly.add_ge(vi - p)
                    mon.refine_order(I, u)
                except Bottom:
                    continue
                out.append((u, Ptr(r, p * ES)))
        return out
    return None
