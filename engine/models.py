"""Contracts of runtime and library functions that stay out of line."""
import re
from ai import Ptr, Lin, Fn, Agg, Tok, THROW, RInfo, UNDEF, ZERO, ONE, Bottom


def new_region(I, s, base, size, kind="heap", tag=None, es=1):
    """a region name that is stable over loop iterations"""
    k = 0
    while (base, k) in s.rinfo and (s.rinfo[(base, k)].alive or k < 1 and False):
        k += 1
    r = (base, k)
    s.rinfo[r] = RInfo(size, kind, tag=tag, es=es)
    s.mem.pop(r, None)
    return r


def runtime(I, s, ins, name, dem, args):
    """exceptions, allocation, termination"""
    if name == "__cxa_allocate_exception":
        r = new_region(I, s, "exc", args[0])
        s.rinfo[r] = s.rinfo[r].copy(kind="exc")
        return [(s, Ptr(r))]
    if name == "__cxa_free_exception":
        return [(s, None)]
    if name == "__cxa_throw":
        s.exc = args[0]
        h = getattr(I.mon, "on_throw", None)
        if h:
            h(I, s, ins, args)
        return [(s, THROW)]
    if name == "__cxa_rethrow":
        return [(s, THROW)]
    if name == "__cxa_begin_catch":
        s.ev("catch")
        return [(s, args[0])]
    if name == "__cxa_end_catch":
        return [(s, None)]
    if name == "__cxa_guard_acquire":
        return [(s, ONE)]
    if name in ("__cxa_guard_release", "__cxa_guard_abort", "__cxa_atexit"):
        return [(s, ZERO if name == "__cxa_atexit" else None)]
    if name in ("_ZSt9terminatev", "abort", "__clang_call_terminate", "_ZSt10unexpectedv", "__cxa_pure_virtual", "_exit", "exit", "quick_exit"):
        s.ev("terminate")
        h = getattr(I.mon, "on_terminate", None)
        if h:
            h(I, s, ins, name)
        return []
    if name in ("_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "malloc", "_ZnwmSt11align_val_t"):
        r = new_region(I, s, "H:%d" % ins["id"], args[0] if isinstance(args[0], Lin) else None)
        return [(s, Ptr(r))]
    if name in ("_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "free", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t"):
        p = args[0]
        if isinstance(p, Ptr):
            inf = I.rinf(s, p.r)
            if inf.kind == "heap":
                if not inf.alive:
                    I.fail(s, "double-free", "memory released twice", ins)
                s.rinfo[p.r] = inf.copy(alive=False)
                s.mem.pop(p.r, None)
        return [(s, None)]
    if name == "__errno_location":
        return [(s, Ptr("errno"))]
    if name.startswith("_ZSt") and "__throw_" in name:
        s.exc = Tok("stdexc")
        return [(s, THROW)]
    if name == "_ZSt21__glibcxx_assert_failPKciS0_S0_":
        return []
    return None
