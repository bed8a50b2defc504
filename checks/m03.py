#!/usr/bin/env python3
"""M03 verify and match: the condition decides, the message is the one given, the first function whose type matches runs."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *

TYPES = {"one": "g:_ZTI3one", "two": "g:_ZTI3two", "three": "g:_ZTI5three"}
RT = "g:_ZTISt13runtime_error"
OWN = Ptr("THROWN")


def typ(p):
    return p.r if isinstance(p, Ptr) and isinstance(p.r, str) else None


class Match(Monitor):
    """answers of dynamic_cast agree with one dynamic type"""
    taint = True
    order = ()
    null = False
    void = False

    def bind(self, I, s, f):
        s.rinfo["B"] = RInfo(None, "ext")
        s.rinfo["THROWN"] = RInfo(None, "ext")
        for a in f.fn.args:
            f.regs[a["id"]] = Ptr("B")
        s.ghost.update(ran=0, made=0, ret=ZERO, thrown="", known=())

    def mode(self, I, s):
        return ()

    def possible(self, s):
        """the dynamic types that agree with the answers so far"""
        out = []
        for d, sup in (("one", {"one"}), ("two", {"two"}), ("three", {"two", "three"}), ("other", set())):
            if all((t in sup) == v for t, v in s.ghost["known"]):
                out.append((d, sup))
        return out

    def c___dynamic_cast(self, I, s, ins, args):
        t = [n for n, r in TYPES.items() if typ(args[2]) == r]
        if not t or typ(args[0]) != "B":
            raise AnalysisError("dynamic_cast of %s to %s" % (args[0], args[2]))
        t = t[0]
        out = []
        for v in (True, False):
            u = s.copy()
            u.ghost["known"] = tuple(sorted(set(u.ghost["known"] + ((t, v),))))
            if self.possible(u):
                out.append((u, Ptr("B:" + t) if v else ZERO))
                u.rinfo["B:" + t] = RInfo(None, "ext")
        return out

    def c_handler(self, I, s, ins, args):
        n = int(s.poly.norm(args[0]).k)
        G = s.ghost
        I.need(s, (not G["ran"]) or None, "twice", "a second function runs", ins)
        G["ran"] = n
        names = [x for x, _ in self.order]
        if n not in names:
            raise AnalysisError("handler %d" % n)
        k = names.index(n)
        t = self.order[k][1]
        poss = self.possible(s)
        if t is not None:
            I.need(s, all(t in sup for _, sup in poss) or None, "wrong-type", "the function for %s runs on something that need not be one" % t, ins)
            I.need(s, (typ(args[1]) == "B:" + t) or None, "wrong-type", "the function does not get the object cast to its type", ins)
        else:
            I.need(s, (typ(args[1]) == "B") or None, "wrong-type", "the function does not get the object", ins)
        for m, e in self.order[:k]:
            I.need(s, (e is not None and all(e not in sup for _, sup in poss)) or None, "order", "a later function runs although an earlier one may match", ins)
        v = I.fresh("ret", s=s)
        G["ret"] = v
        x = s.copy()
        x.exc = OWN
        x.ghost["thrown"] = "handler"
        return [(s, v), (x, THROW)]

    def c_made(self, I, s, ins, args):
        I.need(s, bool(s.ghost["ran"]) or None, "none", "no function has run", ins)
        if not self.void:
            I.need_eq(s, args[0], s.ghost["ret"], "result", "the result is not the one of the function", ins)
        s.ghost["made"] = 1
        return [(s, None)]

    def on_throw(self, I, s, ins, args):
        I.need(s, (not s.ghost["ran"]) or None, "throws", "an exception is thrown although a function matched", ins)
        I.need(s, (typ(args[1]) == RT) or None, "type", "something else than std::runtime_error is thrown", ins)
        s.ghost["thrown"] = "none"

    def call(self, I, s, ins, name, dem, args):
        h = getattr(self, "c_" + name, None)
        if h is not None:
            return h(I, s, ins, args)
        if dem.startswith("std::") and "_error::" in dem.split("(")[0]:
            return [(s, None)]
        return None

    def exit(self, I, s, kind, val):
        G = s.ghost
        if kind == "return":
            I.need(s, bool(G["ran"] and G["made"]) or None, "none", "returns although no function has run")
            return
        if G["thrown"] == "none":
            for m, e in () if self.null else self.order:
                I.need(s, (e is not None and all(e not in sup for _, sup in self.possible(s))) or None, "throws", "throws although a function may match")
        else:
            I.need(s, (G["thrown"] == "handler" and s.exc == OWN) or None, "throws", "something is thrown that no function has thrown")


def match(*order, **kw):
    return type("Match", (Match,), dict(kw, order=order))


class Verify(Monitor):
    taint = True
    ex = None            # typeinfo of the user's exception
    at = 0               # where its value lies

    def bind(self, I, s, f):
        for a in f.fn.args:
            v = S("$" + a["name"])
            if a["ty"] == "i1":
                s.poly.add_ge(v)
                s.poly.add_ge(1 - v)
            f.regs[a["id"]] = v
        s.ghost.update(text=None, n=0, conds=0, cond=None, passed=0, args=0, thrown=None, msgs=(), made=0, argv=ZERO, some=None)

    def mode(self, I, s):
        return ()

    def condition(self, I, s):
        """the value of the condition: True, False or None (unknown here)"""
        if self.cond == "arg":
            c = S("$c")
            return True if s.poly.entails_ge(c - 1) else False if s.poly.entails_ge(-c) else None
        if self.cond == "never":
            return False
        G = s.ghost
        if G["cond"] is None:
            return None
        return bool(G["cond"] or (self.cond == "expr" and G["some"]))

    cond = "arg"
    want = ()

    def c_text(self, I, s, ins, args):
        s.ghost["text"] = (args[0].r, int(s.poly.norm(args[1]).k))
        s.ghost["n"] = int(s.poly.norm(args[2]).k)
        return [(s, None)]

    def c_cond(self, I, s, ins, args):
        I.need(s, (not s.ghost["conds"]) or None, "condition", "the condition is evaluated twice", ins)
        s.ghost["conds"] = 1
        t = s.copy()
        s.ghost["cond"], t.ghost["cond"] = 1, 0
        return [(s, ONE), (t, ZERO)]

    def c_some(self, I, s, ins, args):
        t = s.copy()
        s.ghost["some"], t.ghost["some"] = 1, 0
        return [(s, ONE), (t, ZERO)]

    def c_arg(self, I, s, ins, args):
        I.need(s, (self.condition(I, s) is False) or None, "evaluated", "the arguments of the message are evaluated although the condition holds", ins)
        v = I.fresh("arg", s=s)
        s.ghost["argv"] = v
        return [(s, v)]

    def c_passed(self, I, s, ins, args):
        s.ghost["passed"] = 1
        return [(s, None)]

    def c_made(self, I, s, ins, args):
        s.ghost["made"] = 1
        return [(s, None)]

    def c_strlen(self, I, s, ins, args):
        t = s.ghost["text"]
        if t and typ(args[0]) == t[0] and s.poly.entails_eq(args[0].o):
            return [(s, Lin.c(t[1]))]
        return None

    def due(self, s):
        return [s.ghost["argv"]] if self.want == ("arg",) else [S("$" + w) for w in self.want]

    def format(self, I, s, ins, args):
        """fmt::format(out, text, arguments...): out holds the message"""
        a = list(args[1:])
        G = s.ghost
        p, n = a[0], a[1]
        rest = a[2:]
        if isinstance(n, Ptr) or not isinstance(n, Lin):       # the text by reference
            q = a[0]
            p = I.load(s, ins, q, 8, "ptr")
            n = I.load(s, ins, Ptr(q.r, q.o + 8), 8, "i64")
            rest = a[1:]
        ok = G["text"] is not None and typ(p) == G["text"][0] and bool(s.poly.entails_eq(p.o)) and bool(s.poly.entails_eq(n - G["text"][1]))
        I.need(s, ok or None, "message", "the text of the message is not the one given", ins)
        vals = [I.load(s, ins, x, 8, "i64") if isinstance(x, Ptr) else x for x in rest]
        w = self.due(s)
        I.need(s, (len(vals) == len(w)) or None, "message", "an argument of the message is missing or added", ins)
        for x, y in zip(vals, w):
            I.need_eq(s, x, y, "message", "the arguments of the message are not the ones given, in order", ins)
        G["msgs"] = tuple(sorted(set(G["msgs"] + (args[0].r,)), key=str))
        return [(s, None)]

    def on_throw(self, I, s, ins, args):
        G = s.ghost
        if self.ex:
            I.need(s, (typ(args[1]) == self.ex) or None, "type", "another exception is thrown than the one given", ins)
            I.need_eq(s, I.load(s, ins, Ptr(args[0].r, args[0].o + self.at), 8, "i64"), S("$a"), "type", "the exception thrown is not the one given", ins)
        else:
            I.need(s, (typ(args[1]) == RT) or None, "type", "something else than std::runtime_error is thrown", ins)
            I.need(s, (G["thrown"] == args[0].r) or None, "message", "the exception does not carry the message", ins)
        G["thrown"] = "out"

    def call(self, I, s, ins, name, dem, args):
        h = getattr(self, "c_" + name, None)
        if h is not None:
            r = h(I, s, ins, args)
            if r is not None:
                return r
        if dem.startswith("fmt::"):
            op = dem.split("<")[0].split("(")[0].split("[")[0].rsplit("::", 1)[-1]
            if op == "format":
                return self.format(I, s, ins, args)
            if op in ("print", "streamed"):
                return [(s, None if ins["ty"] == "void" else I.fresh_ty(s, ins["ty"], 8) if ins["ty"] != "ptr" else args[0])]
            raise AnalysisError("formatting by " + op)
        if dem.startswith("std::runtime_error::runtime_error("):
            if "char const*" in dem:
                t = s.ghost["text"]
                ok = t and typ(args[1]) == t[0] and not self.want
            elif "basic_string" in dem:
                ok = args[1].r in s.ghost["msgs"]
            else:                                   # copied or moved
                ok = s.ghost["thrown"] == args[1].r
            I.need(s, bool(ok) or None, "message", "the exception is made from something else than the message", ins)
            s.ghost["thrown"] = args[0].r
            return [(s, None)]
        if dem.startswith("std::") and ("_error::" in dem.split("(")[0] or dem.startswith("std::exception::")):
            return [(s, None)]
        if dem.startswith(("std::chrono::", "std::basic_ostream<", "std::operator<<", "std::put_time", "std::_Put_time")) or name in ("gmtime_r", "gmtime", "localtime_r", "time"):
            if ins["ty"] == "{ptr, ptr}" or ins["ty"].startswith("{"):
                return [(s, Agg((args[0], args[0])))]
            return [(s, None if ins["ty"] == "void" else args[0] if ins["ty"] == "ptr" and args else I.fresh_ty(s, ins["ty"], 8))]
        if "basic_string<" in dem:
            if "::~basic_string" in dem:
                return [(s, None)]
            if "::basic_string(" in dem and len(args) >= 2 and isinstance(args[1], Ptr) and args[1].r in s.ghost["msgs"]:
                s.ghost["msgs"] = tuple(sorted(set(s.ghost["msgs"] + (args[0].r,)), key=str))
                return [(s, None)]
            if ("::basic_string(" in dem or "::basic_string<" in dem) and isinstance(args[0], Ptr):      # some other text
                s.ghost["msgs"] = tuple(r for r in s.ghost["msgs"] if r != args[0].r)
                return [(s, None)]
            raise AnalysisError("string operation " + dem[-60:])
        return None

    def exit(self, I, s, kind, val):
        c = self.condition(I, s)
        if self.nested and s.poly.entails_ge(-S("$c")):
            I.need(s, (kind == "return" and bool(s.ghost["made"])) or None, "nested", "the other branch of the caller is not taken")
            return
        if kind == "return":
            I.need(s, (c is True) or None, "passes", "execution goes on although the condition does not hold")
            I.need(s, bool(s.ghost["passed"]) or None, "passes", "execution does not go on")
        else:
            I.need(s, (c is False) or None, "throws", "an exception is thrown although the condition holds")
            I.need(s, (s.ghost["thrown"] == "out") or None, "throws", "something else is thrown")

    nested = False


def verify(*want, **kw):
    return type("Verify", (Verify,), dict(kw, want=want))


class Over(Monitor):
    taint = True

    def bind(self, I, s, f):
        for a in f.fn.args:
            v = S("$" + a["name"])
            if a["ty"] == "i1":
                s.poly.add_ge(v)
                s.poly.add_ge(1 - v)
            f.regs[a["id"]] = v
        s.ghost.update(got=0, val=ZERO, made=0, some=-1)

    def mode(self, I, s):
        return ()

    def call(self, I, s, ins, name, dem, args):
        if name == "got":
            I.need(s, (not s.ghost["got"]) or None, "twice", "two functions run", ins)
            s.ghost["got"] = int(s.poly.norm(args[0]).k)
            s.ghost["val"] = args[1]
            return [(s, None)]
        if name == "made":
            s.ghost["made"] = 1
            return [(s, None)]
        if name == "some":
            t = s.copy()
            s.ghost["some"], t.ghost["some"] = 1, 0
            return [(s, ONE), (t, ZERO)]
        return None

    def exit(self, I, s, kind, val):
        I.need(s, (kind == "return") or None, "throws", "throws")
        n, v = self.due(I, s)
        I.need(s, (s.ghost["got"] == n) or None, "overload", "the function for the argument's type does not run (or another one does)")
        if n:
            I.need_eq(s, s.ghost["val"], v, "overload", "the function gets another argument")


class Two(Over):
    def due(self, I, s):
        c = S("$c")
        return (1, S("$a")) if s.poly.entails_ge(c - 1) else (2, S("$b"))


class Other(Over):
    def due(self, I, s):
        return 0, None


class Ref(Over):
    def due(self, I, s):
        return (1, S("$a")) if s.ghost["some"] == 1 else (2, S("$a"))


FL = "g:_ZTI7failure"
TR = "g:_ZTI7trouble"
ENTRIES = [
    ("m_one", match((1, "one"))), ("m_three", match((1, "one"), (2, "two"), (3, "three"))), ("m_const", match((3, "three"), (2, "two"))),
    ("m_lvalue", match((2, "two"), (1, "one"))), ("m_void", match((2, "two"), (9, None), void=True)), ("m_null", match((1, "one"), (2, "two"), null=True)), ("m_mixed", match((1, "one"), (2, "two"))),
    ("v_verify", verify("a", "b")), ("v_plain", verify()), ("v_silent", verify("a", "b")), ("v_silent_plain", verify()), ("v_ex", verify("a", ex=FL, at=8)), ("v_ex_const", verify("a", ex=FL, at=8)), ("v_ex_lvalue", verify("a", ex=TR)),
    ("v_macro", verify("arg", cond="call")), ("v_macro_expr", verify("arg", cond="expr")), ("v_macro_nested", verify("arg", cond="call", nested=True)), ("v_fail", verify("a", "b", cond="never")),
    ("o_two", Two), ("o_other", Other), ("o_ref", Ref),
]


def run():
    c = Check("M03", "dispatch automaton over dynamic_cast answers; condition, message and exception of every verify form")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 20
    c.assumptions = ["formatting does not throw for a text that fits its arguments", "dynamic_cast as the standard specifies"]
    m = c.module("match.cc", "keep_match.txt")
    c.par([lambda e=e, k=k: c.analyse(m, e, k) for e, k in ENTRIES if not only or e in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
