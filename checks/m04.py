#!/usr/bin/env python3
"""M04 iterator_facade: the operators an iterator gets are exactly those its primitives allow, and agree with them."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *

p, q, n = S("$p"), S("$q"), S("$n")
# number types an offset may have: letter -> (low, high)
BIG = 1 << 40
WIDTH = dict(l=(-BIG, BIG), i=(-(1 << 31), (1 << 31) - 1), u=(0, (1 << 32) - 1), s=(-(1 << 15), (1 << 15) - 1), c=(0, 255), z=(0, BIG))


class Facade(Monitor):
    """positions stay symbolic; every operator's result is compared with the position it stands for"""
    name = op = num = ""
    small = False     # the distance is an int
    single = False    # advance may only be asked for a single step
    stepwise = False  # a single step is not asked of advance

    def bind(self, I, s, f):
        lim = 1 << 29 if self.small else BIG
        lo, hi = WIDTH[self.num] if self.num else (-lim, lim)
        if self.small:
            lo, hi = max(lo, -lim), min(hi, lim)
        for v, a, b in ((p, -lim, lim), (q, -lim, lim), (n, lo, hi)):
            s.poly.add_ge(v - a)
            s.poly.add_ge(b - v)
        f.regs[f.fn.args[0]["id"]] = p
        if len(f.fn.args) > 1:
            f.regs[f.fn.args[1]["id"]] = n if self.num else q
        s.ghost["got"] = ()
        s.ghost["said"] = -1
        s.ghost["at"] = 0
        s.ghost["over"] = -1

    def want(self):
        """expected results, expected element, expected condition (kind, Lin), same object"""
        o = self.op
        return {
            "star": ((p,), p, None), "arrow": ((p,), p, None),
            "inc": ((p + 1,), None, "self"), "dec": ((p - 1,), None, "self"),
            "pinc": ((p, p + 1), None, None), "pdec": ((p, p - 1), None, None), "vinc": ((p + 1,), None, None),
            "plus": ((p + n, p), None, None), "nplus": ((p + n, p), None, None), "minus": ((p - n, p), None, None),
            "add": ((p + n,), None, "self"), "sub": ((p - n,), None, "self"), "idx": ((p,), p + n, None),
            "diff": ((p - q,), None, None), "left": ((100 - p,), None, None), "proxy": ((p, p + 1), None, None),
            "eq": ((), None, "eq"), "ne": ((), None, "ne"), "lt": ((), None, "lt"), "le": ((), None, "le"), "gt": ((), None, "gt"), "ge": ((), None, "ge"),
            "eqs": ((), None, "end"), "seq": ((), None, "end"), "nes": ((), None, "more"), "sne": ((), None, "more"),
            "val": ((p, p + 1), None, None),
        }[o]

    def holds(self, I, s, c, yes):
        P = s.poly
        if c == "self":
            return yes
        if c in ("end", "more"):
            k = s.ghost["over"]
            return k >= 0 and (k == 1) == ((c == "end") == yes)
        if not yes:
            c = {"eq": "ne", "ne": "eq", "lt": "ge", "ge": "lt", "le": "gt", "gt": "le"}[c]
        d = p - q
        return bool({"eq": lambda: P.entails_eq(d), "ne": lambda: P.entails_ne(d), "lt": lambda: P.entails_ge(-d - 1), "le": lambda: P.entails_ge(-d),
                     "gt": lambda: P.entails_ge(d - 1), "ge": lambda: P.entails_ge(d)}[c]())

    def call(self, I, s, ins, name, dem, args):
        P = s.poly
        w = self.want()
        if name == "cell":
            return [(s, Ptr("CELL", args[0]))]          # one byte of the region stands for one element
        if name == "where":
            a = args[0]
            I.need(s, (w[1] is not None and isinstance(a, Ptr) and a.r == "CELL" and bool(P.entails_eq(a.o - w[1]))) or None,
                   "element", "refers to %s instead of the element at %s" % (I.show(s, a), w[1]), ins)
            s.ghost["at"] = 1
            return [(s, None)]
        if name == "out":
            k = int(P.norm(args[0]).k)
            I.need(s, (k < len(w[0]) and isinstance(args[1], Lin) and bool(P.entails_eq(args[1] - w[0][k]))) or None,
                   "position", "result %d is %s instead of %s" % (k, I.show(s, args[1]), w[0][k] if k < len(w[0]) else "nothing"), ins)
            s.ghost["got"] += (k,)
            return [(s, None)]
        if name in ("yes", "no"):
            I.need(s, w[2] is not None and self.holds(I, s, w[2], name == "yes") or None, "answer",
                   "%s is answered where the positions do not say so" % name if w[2] != "self" else "the result is not the iterator itself", ins)
            s.ghost["said"] = 1
            return [(s, None)]
        if name == "over":
            I.need(s, bool(P.entails_eq(args[0] - p)) or None, "end", "another position is asked for its end", ins)
            out = []
            for b in (0, 1):
                t = s.copy()
                if t.ghost["over"] not in (-1, b):
                    continue
                t.ghost["over"] = b
                out.append((t, Lin.c(b)))
            return out
        if name == "step":
            if self.single:
                I.need(s, (bool(P.entails_eq(args[0] - 1)) or bool(P.entails_eq(args[0] + 1))) or None, "single-step", "advance() of an iterator without random access is asked for more than one step", ins)
            if self.stepwise:
                I.need(s, None, "single-step", "advance() is used for a single step although there is a cheaper way", ins)
            return [(s, None)]
        return None

    def exit(self, I, s, kind, val):
        w = self.want()
        I.need(s, kind == "return" or None, "no-throw", "throws")
        ok = s.ghost["got"] == tuple(range(len(w[0]))) and (w[1] is None or s.ghost["at"] == 1) and (w[2] is None or s.ghost["said"] == 1)
        I.need(s, ok or None, "complete", "not every result is delivered")


BASE = ("star", "arrow", "inc", "pinc")
ONE_WAY = ("star", "arrow", "inc", "vinc")
EQ = ("eq", "ne")
BACK = ("dec", "pdec")
ORD = ("lt", "le", "gt", "ge", "diff")
ARI = ("plus", "nplus", "minus", "add", "sub", "idx")
END = ("eqs", "seq", "nes", "sne")
# iterator -> (operators, letters of offset types)
KINDS = {
    "ra": (BASE + EQ + BACK + ORD, "liuscz"), "ri": (BASE + EQ + BACK + ORD, "isc"), "fw": (BASE + EQ, ""), "mp": (BASE + EQ, ""), "bd": (BASE + EQ + BACK, ""),
    "ad": (BASE + EQ + BACK, ""), "all": (BASE + EQ + BACK + ORD, "liuscz"), "sp": (ONE_WAY + EQ, ""), "sa": (ONE_WAY + EQ, ""), "se": (BASE + END, ""),
    "sb": (BASE + EQ + BACK + ORD + END + ("left",), ""), "win": (BASE + EQ + BACK + ORD, "liuscz"), "wil": (BASE + EQ + BACK, ""),
}


def jobs():
    for k, (ops, nums) in KINDS.items():
        for o in ops:
            yield "%s_%s" % (k, o), k, o, ""
        for x in nums:
            for o in ARI:
                yield "%s_%s_%s" % (k, o, x), k, o, x
    for e, o in (("va_star", "val"), ("va_arrow", "val"), ("va_proxy", "proxy"), ("va_inc", "inc"), ("va_pinc", "pinc"), ("va_eq", "eq"), ("va_ne", "ne")):
        yield e, "va", o, ""


def mk(k, o, x):
    def make():
        m = Facade()
        m.op, m.num = o, x
        m.small = k == "ri"
        m.single = k in ("ad", "sa")
        m.stepwise = k == "all" and o in BASE + BACK
        return m
    return make


PRE = '#include "harness/facade.h"\n#include <algorithm>\n#include <concepts>\n#include <forward_list>\n#include <list>\n#include <memory>\n#include <ranges>\n#include <type_traits>\n#include <vector>\n' + r"""
struct mo : utl::iterator_facade<mo> {  // elements that cannot be copied
  std::unique_ptr<int> dereference() const noexcept { return {}; }
  void increment() noexcept {}
  bool equal_to(mo const&) const noexcept { return true; }
};
struct un : utl::iterator_facade<un> { int dereference() const noexcept { return 1; } void increment() noexcept {} };  // nothing to compare with
struct vt : utl::iterator_facade<vt> { using value_type = char; int dereference() const noexcept { return 1; } void increment() noexcept {} };
struct other {};
template <typename I> struct around : utl::iterator_wrapper_facade<around<I>, I> {
  around() = default;
  explicit around(I i) : utl::iterator_wrapper_facade<around<I>, I>{i} {}
  decltype(auto) dereference() const noexcept { return *this->wrapped_iterator; }
};
struct dra : utl::iterator_facade<dra> {  // usable where the standard library wants an iterator
  int* p{};
  int& dereference() const noexcept { return *p; }
  void advance(std::ptrdiff_t k) noexcept { p += k; }
  std::ptrdiff_t distance_to(dra const& o) const noexcept { return o.p - p; }
};
struct dfw : utl::iterator_facade<dfw> { int i{}; int const& dereference() const noexcept { return i; } void increment() noexcept { ++i; } bool equal_to(dfw const& o) const noexcept { return i == o.i; } };
struct dbd : utl::iterator_facade<dbd> { int i{}; int const& dereference() const noexcept { return i; } void increment() noexcept { ++i; } void decrement() noexcept { --i; } bool equal_to(dbd const& o) const noexcept { return i == o.i; } };
template <typename I> using tr = std::iterator_traits<I>;
template <typename I, typename C> constexpr bool cat = std::is_same_v<typename tr<I>::iterator_category, C>;
using VI = around<std::vector<int>::iterator>;
using LI = around<std::list<int>::iterator>;
using PI = around<int*>;
template <typename I> constexpr bool can_inc = requires(I i) { ++i; i++; };
template <typename I> constexpr bool can_dec = requires(I i) { --i; i--; };
template <typename I> constexpr bool some_dec = requires(I i) { --i; } || requires(I i) { i--; };
template <typename I> constexpr bool can_jump = requires(I i, std::ptrdiff_t k) { i += k; i -= k; i + k; k + i; i - k; i[k]; };
template <typename I> constexpr bool some_jump = requires(I i) { i += 1; } || requires(I i) { i -= 1; } || requires(I i) { i + 1; } || requires(I i) { 1 + i; } || requires(I i) { i - 1; } || requires(I i) { i[1]; };
template <typename I> constexpr bool can_order = requires(I i) { i < i; i <= i; i > i; i >= i; i - i; };
template <typename I> constexpr bool some_order = requires(I i) { i < i; } || requires(I i) { i <= i; } || requires(I i) { i > i; } || requires(I i) { i >= i; } || requires(I i) { i - i; };
template <typename I, typename E> constexpr bool can_end = requires(I i, E e) { i == e; i != e; e == i; e != i; };
template <typename I, typename E> constexpr bool some_end = requires(I i, E e) { i == e; } || requires(I i, E e) { i != e; } || requires(I i, E e) { e == i; } || requires(I i, E e) { e != i; };
template <typename I, typename E> constexpr bool can_left = requires(I i, E e) { e - i; };
"""
RAC, BIC, FWC, INC = "std::random_access_iterator_tag", "std::bidirectional_iterator_tag", "std::forward_iterator_tag", "std::input_iterator_tag"


def asserts():
    a = []
    for ts, c in ((("ra", "ri", "all", "sb", "win", "dra", "VI", "PI", "in"), RAC), (("bd", "ad", "wil", "dbd", "LI", "il"), BIC), (("fw", "mp", "va", "se", "dfw", "mo", "un", "vt"), FWC), (("sp", "sa"), INC)):
        for t in ts:
            a.append(("category", "cat<%s, %s>" % (t, c), "%s has the category its primitives give it" % t))
            a.append(("category", "std::is_same_v<tr<%s>::iterator_concept, %s>" % (t, c), "and the concept"))
            a.append(("operators", "can_inc<%s>" % t, "can be incremented"))
            a.append(("operators", ("can_dec<%s>" if c in (RAC, BIC) or t == "sa" else "!some_dec<%s>") % t, "decrement exactly if bidirectional"))
            a.append(("operators", ("can_jump<%s>" if c == RAC else "!some_jump<%s>") % t, "jumps exactly with random access"))
            a.append(("operators", ("can_order<%s>" if c == RAC else "!some_order<%s>") % t, "order and distance exactly with random access"))
            a.append(("sentinel", ("can_end<%s, done>" if t in ("se", "sb") else "!some_end<%s, done>") % t, "comparable with its sentinel only"))
            a.append(("sentinel", "!some_end<%s, other>" % t, "not comparable with anything else"))
            a.append(("sentinel", ("can_left<%s, done>" if t == "sb" else "!can_left<%s, done>") % t, "distance to the end only if there is one"))
            if c in (RAC, BIC):
                a.append(("operators", "std::is_same_v<decltype(--std::declval<%s&>()), %s&> && std::is_same_v<decltype(std::declval<%s&>()--), %s>" % (t, t, t, t), "decrement gives the iterator itself, postfix the old position"))
            if c == RAC:
                a.append(("operators", "std::is_same_v<decltype(std::declval<%s&>() += 1), %s&> && std::is_same_v<decltype(std::declval<%s&>() -= 1), %s&>" % (t, t, t, t), "a jump gives the iterator itself"))
                a.append(("operators", "std::is_same_v<decltype(std::declval<%s const&>() + 1), %s> && std::is_same_v<decltype(1 + std::declval<%s const&>()), %s> && std::is_same_v<decltype(std::declval<%s const&>() - 1), %s>" % (t, t, t, t, t, t), "a sum is a new iterator"))
                a.append(("operators", "std::is_same_v<decltype(std::declval<%s const&>()[1]), tr<%s>::reference> && std::is_same_v<decltype(std::declval<%s const&>() - std::declval<%s const&>()), tr<%s>::difference_type>" % (t, t, t, t, t), "index and distance have the right types"))
            a.append(("operators", "std::is_same_v<decltype(++std::declval<%s&>()), %s&>" % (t, t), "increment gives the iterator itself"))
            a.append(("operators", "std::is_same_v<decltype(std::declval<%s&>()++), %s>" % (t, "void" if c == INC else t), "postfix increment gives the old position, nothing if single-pass"))
    for t, d in (("ra", "std::ptrdiff_t"), ("ri", "int"), ("fw", "std::ptrdiff_t"), ("win", "std::ptrdiff_t"), ("ad", "std::ptrdiff_t"), ("sp", "std::ptrdiff_t")):
        a.append(("types", "std::is_same_v<tr<%s>::difference_type, %s>" % (t, d), "distances are what distance_to gives"))
    for t, r, v, ptr in (("ra", "item&", "item", "item*"), ("va", "item", "item", "utl::arrow_proxy<item>"), ("dfw", "int const&", "int", "int const*"), ("vt", "int", "char", "utl::arrow_proxy<int>"),
                         ("win", "item&", "item", "item*"), ("VI", "int&", "int", "int*"), ("mo", "std::unique_ptr<int>", "std::unique_ptr<int>", "utl::arrow_proxy<std::unique_ptr<int>>")):
        a.append(("types", "std::is_same_v<tr<%s>::reference, %s>" % (t, r), "reference is what dereference gives"))
        a.append(("types", "std::is_same_v<tr<%s>::value_type, %s>" % (t, v), "value type without reference and const, or the declared one"))
        a.append(("types", "std::is_same_v<tr<%s>::pointer, %s>" % (t, ptr), "operator-> gives the element's address or a proxy"))
    for t, k in (("dra", "random_access_iterator"), ("VI", "random_access_iterator"), ("PI", "random_access_iterator"), ("LI", "bidirectional_iterator"), ("dbd", "bidirectional_iterator"), ("dfw", "forward_iterator"), ("se", "input_iterator")):
        a.append(("concepts", "std::%s<%s>" % (k, t), "models the standard concept"))
    for t in ("dra", "VI"):
        a.append(("concepts", "std::sized_sentinel_for<%s, %s>" % (t, t), "its distance is known"))
    a.append(("concepts", "std::sentinel_for<done, se>", "its sentinel ends a range"))
    a.append(("concepts", "!std::sized_sentinel_for<done, se>", "without a distance"))
    return a


USES = [
    ("std::vector<int> v{1}; std::sort(VI{v.begin()}, VI{v.end()});", "sorting through a wrapped iterator"),
    ("int a[3]{}; dra b, e; b.p = a; e.p = a + 3; std::sort(b, e); std::reverse(b, e); std::vector<int> v(b, e); (void)(std::lower_bound(b, e, 1) - b);", "random access algorithms"),
    ("std::list<int> l{1}; LI b{l.begin()}, e{l.end()}; std::reverse(b, e); (void)std::prev(e); (void)std::distance(b, e);", "bidirectional algorithms through a wrapped list iterator"),
    ("dbd b, e; std::vector<int> v(b, e); (void)std::prev(e); (void)std::make_reverse_iterator(e);", "bidirectional algorithms"),
    ("dfw b, e; (void)std::max_element(b, e); (void)std::adjacent_find(b, e); std::vector<int> v(b, e);", "forward algorithms"),
    ("se s{1}; for (auto& x : std::ranges::subrange(s, done{})) { (void)x; }", "range with a sentinel"),
    ("se s{1}; for (; s != done{}; ++s) { (void)*s; } for (; done{} != s; s++) { (void)s->x; } (void)(s == done{}); (void)(done{} == s);", "loop until the sentinel"),
    ("sb s{1}; for (; s != done{}; ++s) { (void)*s; } (void)(s == s); (void)(s != s); (void)(s < s); (void)(done{} == s); (void)(done{} - s);", "sentinel and iterators to compare with"),
    ("ad i{1}; ++i; i++; --i; i--; (void)(i == i); (void)(i != i);", "advance() alone"),
    ("wil i{il{1}}; ++i; i++; --i; i--; (void)(i == i); (void)(i != i); (void)*i; (void)i->x;", "wrapper around a bidirectional iterator"),
    ("mo i; ++i; i++; (void)*i; (void)i->get(); (void)(i == i);", "elements that cannot be copied"),
    ("un i; ++i; i++; (void)*i;", "no comparison provided"),
    ("sp i{1}; ++i; i++; (void)*i; (void)(i != i);", "single-pass"),
    ("ri i{1}; i += 1; i -= 1; i = i + 1; i = 1 + i; i = i - 1; (void)i[2]; int d = i - i; (void)d;", "narrower distances"),
    ("VI const i; (void)(i == i); (void)(i < i); (void)(i - i); (void)(i + 1); (void)(i - 1u);", "constant iterators"),
]


def run():
    c = Check("M04", "symbolic positions through every operator the facade adds; type-level obligations for which operators, categories and types there are")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 300
    inc = ("-I" + VERIF,)
    c.static_asserts("types", PRE, asserts(), inc, each=True)
    c.compiles("uses", "accepted", PRE, USES, inc)
    ok, err = build.syntax(PRE + "\nvoid use_it() {\n%s\n}\n" % "\n".join("{ %s }" % st for st, _ in USES), inc, compiler="g++")
    if not ok and build.syntax(PRE + "\nvoid use_it() {\n%s\n}\n" % "\n".join("{ %s }" % st for st, _ in USES), inc)[0]:
        c.obligation(False, "uses", "accepted", "g++ does not accept the uses: " + next((l for l in err.splitlines() if "error:" in l), "")[:300], "uses(type-level)", ident="uses/g++")
    m = c.module("facade.cc")
    c.endless(m, "recursion")
    c.par([lambda j=j: c.analyse(m, j[0], mk(*j[1:])) for j in list(jobs()) if not only or j[0] in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
