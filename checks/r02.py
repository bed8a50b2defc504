#!/usr/bin/env python3
"""R02 generators: every value in the order it was yielded, exceptions delivered, the coroutine destroyed exactly once."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *

ERR = Ptr("ERROR")


class Gen(Monitor):
    """each coroutine: suspended, done or gone; at most one value that was yielded and not handed out"""
    taint = True

    def bind(self, I, s, f):
        s.rinfo["ERROR"] = RInfo(None, "ext")
        for a in f.fn.args:
            f.regs[a["id"]] = S("$" + a["name"])
        s.ghost.update(coros=(), err=0, vecs=0)
        self.n = {}

    def mode(self, I, s):
        return ()

    # -- the coroutine: ghosts st:<region> s(uspended)/d(one)/g(one), have:<region>, val:<region>
    def c_coro(self, I, s, ins, args):
        r = args[0].r
        s.ghost["coros"] = s.ghost["coros"] + (r,)
        s.ghost["st:%s" % (r,)] = "s"
        s.ghost["have:%s" % (r,)] = 0
        s.ghost["val:%s" % (r,)] = ZERO
        self.n[r] = (args[1], args[2], int(s.poly.norm(args[3]).k))
        return [(s, None)]

    def which(self, I, s, ins, p, what):
        if not isinstance(p, Ptr) or p.r not in s.ghost["coros"]:
            I.need(s, None, "handle", "%s with no coroutine" % what, ins)
            raise Bottom()
        return p.r

    def co(self, I, s, ins, name, args):
        G = s.ghost
        if name.startswith("llvm.coro.promise"):
            return [(s, args[0])]
        op = name.split(".")[2]
        r = self.which(I, s, ins, args[0], op)
        st, have, val = "st:%s" % (r,), "have:%s" % (r,), "val:%s" % (r,)
        if op == "destroy":
            I.need(s, (G[st] != "g") or None, "double-destroy", "the coroutine is destroyed a second time", ins)
            G[st] = "g"
            s.ev("destroy", r)
            return [(s, None)]
        I.need(s, (G[st] != "g") or None, "dead", "the coroutine is used after it was destroyed", ins)
        if op == "done":
            return [(s, Lin.c(int(G[st] == "d")))]
        if op != "resume":
            raise AnalysisError(name)
        I.need(s, (G[st] == "s") or None, "resume-done", "a coroutine is resumed that has ended", ins)
        I.need(s, (not G[have]) or None, "value-lost", "the coroutine is resumed although its value was not handed out: the value is lost", ins)
        vp, ep, kind = self.n[r]
        out = []
        y = s.copy()                         # it yields a value
        v = I.fresh("v", s=y)
        I.write(y, vp, 8, v)
        y.ghost[have], y.ghost[val] = 1, v
        y.ev("yields", v)
        out.append((y, None))
        if kind != 1:
            e = s.copy()                     # it ends
            e.ghost[st] = "d"
            e.ev("ends")
            out.append((e, None))
        x = s                                # it throws
        x.ghost[st] = "d"
        I.write(x, ep, 8, ERR)
        x.ghost["err"] = 1
        x.ev("throws")
        out.append((x, None))
        return out

    # -- what the user sees
    def hand(self, I, s, ins, v):
        G = s.ghost
        for r in G["coros"]:
            if G["have:%s" % (r,)] and isinstance(v, Lin) and s.poly.entails_eq(v - G["val:%s" % (r,)]):
                G["have:%s" % (r,)] = 0
                return
        I.need(s, None, "value", "what is handed out is not the value that was yielded last", ins)

    def c_sink(self, I, s, ins, args):
        I.need(s, (not s.ghost["err"]) or None, "swallowed", "the coroutine has thrown and the caller is not told", ins)
        self.hand(I, s, ins, args[0])
        return [(s, None)]

    def over(self, I, s, ins, what):
        G = s.ghost
        for r in G["coros"]:
            if self.n[r][2] in (0, 2):
                I.need(s, (G["st:%s" % (r,)] == "d") or None, "early-end", "%s although the coroutine has not ended" % what, ins)
                I.need(s, (not G["have:%s" % (r,)]) or None, "value-lost", "%s although the last value was not handed out" % what, ins)

    def c_ended(self, I, s, ins, args):
        I.need(s, True if isinstance(args[0], Lin) and s.poly.entails_ge(args[0] - 1) else None, "end", "the generator promises another value after the end", ins)
        if not any(self.n[r][2] == 2 for r in s.ghost["coros"]):
            I.need(s, (not s.ghost["err"]) or None, "swallowed", "the coroutine has thrown and the caller is not told", ins)
        self.over(I, s, ins, "the generator ends")
        return [(s, None)]

    def c_vec(self, I, s, ins, args):
        I.need(s, (args[0].r == s.ghost.get("vec")) or None, "vector", "another vector is returned", ins)
        I.need(s, (not s.ghost["err"]) or None, "swallowed", "the coroutine has thrown and the caller is not told", ins)
        self.over(I, s, ins, "the vector is complete")
        return [(s, None)]

    def c_same(self, I, s, ins, args):
        I.need_eq(s, args[0], args[1], "value", "the value is not the one that was yielded (or the caller's was taken)", ins)
        return [(s, None)]

    def c_holds(self, I, s, ins, args):
        I.need_eq(s, I.load(s, ins, args[0], 8, "ptr"), ERR, "exception", "the exception is not kept", ins)
        return [(s, None)]

    def c_some(self, I, s, ins, args):
        t = s.copy()
        return [(s, ONE), (t, ZERO)]

    def vector(self, I, s, ins, dem, args):
        head = dem.split("(")[0]
        op = head[head.rindex(">::") + 3:].split("<")[0]
        r = None if ins["ty"] == "void" else args[0]
        if op in ("vector", "~vector"):
            if op == "vector":
                if len(args) == 1:
                    s.ghost["vec"] = args[0].r
                elif len(args) == 2 and isinstance(args[1], Ptr) and args[1].r == s.ghost.get("vec"):
                    s.ghost["vec"] = args[0].r      # moved or copied on the way out
                else:
                    raise AnalysisError("vector operation " + dem[-60:])
            return [(s, r)]
        if op in ("emplace_back", "push_back"):
            I.need(s, (args[0].r == s.ghost.get("vec")) or None, "vector", "a value goes into another vector", ins)
            self.hand(I, s, ins, I.load(s, ins, args[1], 8, "i64"))
            return [(s, args[0] if ins["ty"] == "ptr" else None)]
        if op == "reserve":
            return [(s, None)]
        raise AnalysisError("vector operation " + op)

    def eptr(self, I, s, ins, dem, args):
        if "::~exception_ptr" in dem:
            return [(s, None)]
        if dem.startswith("std::current_exception"):
            I.write(s, args[0], 8, ERR)
            return [(s, None)]
        if "::exception_ptr(" in dem or "::operator=(" in dem or "::swap(" in dem:
            null = len(args) == 1 or "nullptr" in dem
            v = ZERO if null else I.load(s, ins, args[1], 8, "ptr")
            w = I.load(s, ins, args[0], 8, "ptr") if "::swap(" in dem else ZERO
            I.write(s, args[0], 8, v)
            if "&&" in dem or "::swap(" in dem:
                I.write(s, args[1], 8, w)
            return [(s, None if ins["ty"] == "void" else args[0])]
        if "::operator bool" in dem:
            v = I.load(s, ins, args[0], 8, "ptr")
            return [(s, Lin.c(int(isinstance(v, Ptr))))]
        if "::operator==(" in dem or "::operator!=(" in dem:
            a, b = (I.load(s, ins, x, 8, "ptr") for x in args)
            return [(s, Lin.c(int((isinstance(a, Ptr) == isinstance(b, Ptr)) == ("operator==" in dem))))]
        raise AnalysisError("exception pointer: " + dem[-60:])

    def init_cell(self, I, s, region, off, size, ty):
        return None

    def call(self, I, s, ins, name, dem, args):
        h = getattr(self, "c_" + name, None)
        if h is not None:
            return h(I, s, ins, args)
        if name.startswith("llvm.coro."):
            return self.co(I, s, ins, name, args)
        if dem.startswith("std::rethrow_exception"):
            v = I.load(s, ins, args[0], 8, "ptr")
            I.need(s, (v == ERR) or None, "exception", "another exception is thrown than the coroutine's", ins)
            s.ghost["err"] = 0
            s.exc = v
            return [(s, THROW)]
        if "exception_ptr" in dem or dem.startswith("std::current_exception"):
            return self.eptr(I, s, ins, dem, args)
        if dem.startswith("std::vector<") or "std::vector<" in dem.split("(")[0]:
            return self.vector(I, s, ins, dem[dem.index("std::vector<"):], args)
        return None

    def exit(self, I, s, kind, val):
        G = s.ghost
        for r in G["coros"]:
            if self.gens:
                I.need(s, (G["st:%s" % (r,)] == "g") or None, "leak", "the coroutine is not destroyed")
        I.need(s, (not G["err"]) or None, "swallowed", "the coroutine has thrown and the caller is not told")
        I.need(s, (kind == "return" or s.exc == ERR) or None, "throws", "something is thrown that the coroutine has not thrown")

    gens = True


class Promise(Gen):
    gens = False


NAMES = "g_all g_box g_peek g_raw g_raw_box g_some g_unread g_after_end g_after_throw g_vec g_vec_rest g_ret g_move g_pass g_assign".split()
ENTRIES = [(n, Gen) for n in NAMES] + [(n, Promise) for n in ("y_value", "y_rvalue", "y_lvalue", "y_again", "y_throw", "y_fresh")]
PRE = "#include <concepts>\n#include <coroutine>\n#include <memory>\n#include <type_traits>\n#include <utility>\n#include <vector>\n#include \"utl/generator.h\"\nusing G = utl::generator<int>; using P = G::promise_type; using U = utl::generator<std::unique_ptr<int>>;\ntemplate <typename T, typename F> concept yields = requires(typename utl::generator<T>::promise_type& p, F f) { p.yield_value(std::forward<F>(f)); };\n"
ASSERTS = [
    ("copy", "!std::is_copy_constructible_v<G> && !std::is_copy_assignable_v<G>", "a generator cannot be copied: both copies would destroy the coroutine"),
    ("suspend", "std::is_same_v<decltype(std::declval<P&>().initial_suspend()), std::suspend_always>", "nothing runs before the first value is asked for"),
    ("suspend", "std::is_same_v<decltype(std::declval<P&>().final_suspend()), std::suspend_always>", "the coroutine stays suspended at its end, so that done() and destroy() are defined"),
    ("suspend", "noexcept(std::declval<P&>().final_suspend())", "the final suspension cannot throw"),
    ("suspend", "std::is_same_v<decltype(std::declval<P&>().yield_value(1)), std::suspend_always>", "the coroutine stops at every value"),
    ("explicit", "!std::is_convertible_v<G, int> && std::is_constructible_v<bool, G&>", "the end test is explicit"),
    ("value", "std::is_same_v<decltype(std::declval<U&>()()), std::unique_ptr<int>>", "values are handed out by value, also those that can only be moved"),
    ("value", "yields<std::unique_ptr<int>, std::unique_ptr<int>> && !yields<std::unique_ptr<int>, std::unique_ptr<int>&>", "values that can only be moved are moved in and never copied"),
]

CORO = "U make(int n) { for (int i = 0; i < n; ++i) { co_yield std::make_unique<int>(i); } }\nG ints(int n) { int i = 0; while (i < n) { co_yield i; ++i; } co_return; }\n"
USES = [
    ("U u = make(1); while (u) { std::unique_ptr<int> x = u(); }", "values that can only be moved can be yielded and handed out"),
    ("std::vector<std::unique_ptr<int>> v = make(1).to_vec();", "values that can only be moved can be collected"),
    ("std::vector<int> v = ints(3).to_vec(); G g = ints(2); int x = g();", "a coroutine can be written and read"),
    ("std::vector<G> all; all.push_back(ints(1)); all.emplace_back(ints(2));", "generators can be kept in a vector"),
    ("G g = ints(1); g = ints(2); G h = std::move(g);", "generators can be moved and move-assigned"),
]


def run():
    c = Check("R02", "typestate of the coroutine handle (suspended, done, destroyed) with the value in flight; type-level obligations on the promise")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 12
    c.assumptions = ["operator() is only called when there is another value or an exception", "the coroutine does not resume itself"]
    m = c.module("generator.cc", "keep_gen.txt")
    c.par([lambda e=e, k=k: c.analyse(m, e, k) for e, k in ENTRIES if not only or e in only.split(",")])
    if not only:
        c.static_asserts("g_types", PRE, ASSERTS)
        c.compiles("g_uses", "usable", PRE + CORO, USES)
    return c.finish()


if __name__ == "__main__":
    main(run)
