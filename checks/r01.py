#!/usr/bin/env python3
"""R01 ownership: every acquired resource is released exactly once, in every history of moves, assignments and failures."""
import os
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
from common import *

NAMES = {"mem": "memory block", "file": "file handle", "fd": "file descriptor", "map": "memory mapping"}


def is_res(r):
    return isinstance(r, tuple) and r[0] == "own"


class Own(Monitor):
    """live resources are regions ("own", kind, slot); a released one becomes ("own", kind, "gone")"""
    taint = True
    can_bound = True
    slice_unroll = staticmethod(lambda k: 6 * k + 6)

    def bind(self, I, s, f):
        for a in f.fn.args:
            v = I.fresh_ty(s, a["ty"], 8)
            if a["name"] in ("s", "path"):
                n = S("$L")
                s.poly.add_ge(n)
                s.rinfo["T"] = RInfo(n + 1, "input")
                v = Ptr("T")
            if a["name"] == "n":
                v = S("$n")
                s.poly.add_ge(v)
                s.poly.add_ge(S("$L") - v)
            f.regs[a["id"]] = v
        s.ghost["live"] = ()
        s.ghost["acts"] = ()
        s.ghost["omit"] = ()
        s.ghost["left"] = -1
        s.ghost["fill"] = None

    def bound(self, I, s, n):
        s.ghost["left"] = n
        return I.assume_ge(s, Lin.c(n) - S("$L"))

    def mode(self, I, s):
        return ()

    # -- resources
    def acquire(self, I, s, kind, size):
        k = 0
        while ("own", kind, k) in s.ghost["live"]:
            k += 1
        r = ("own", kind, k)
        s.ghost["live"] = tuple(sorted(s.ghost["live"] + (r,)))
        s.rinfo[r] = RInfo(size, "res")
        s.mem.pop(r, None)
        s.ev("acquire", kind, k)
        return Ptr(r)

    def release(self, I, s, ins, p, kind, what):
        ok = isinstance(p, Ptr) and p.r in s.ghost["live"]
        if isinstance(p, Ptr) and p.r == ("own", kind, "gone"):
            I.need(s, None, "double-release", "%s is called on a %s that has been released before" % (what, NAMES[kind]), ins)
        I.need(s, ok or None, "release", "%s is called on something that is no %s (%s)" % (what, NAMES[kind], I.show(s, p)), ins, (p,))
        I.need(s, (p.r[1] == kind) or None, "release", "%s is called on a %s" % (what, NAMES[p.r[1]]), ins)
        I.need_eq(s, p.o, ZERO, "release", "%s is called on a position inside a %s" % (what, NAMES[kind]), ins)
        r = p.r
        s.ev("release", kind, r[2])
        s.ghost["live"] = tuple(x for x in s.ghost["live"] if x != r)
        s.mem.pop(r, None)
        gone = ("own", kind, "gone")
        s.rinfo[gone] = RInfo(None, "res", lossy=False)
        s.rinfo.pop(r, None)
        self.rename(s, r, gone)

    def rename(self, s, a, b):
        def conv(v):
            if isinstance(v, Ptr) and v.r == a:
                return Ptr(b, ZERO)
            if isinstance(v, Agg):
                return Agg(tuple(conv(x) for x in v.v))
            return v
        for fr in s.frames:
            fr.regs = {k: conv(v) for k, v in fr.regs.items()}
        for r, cells in list(s.mem.items()):
            s.mem[r] = {o: (n, conv(v)) for o, (n, v) in cells.items()}

    def usable(self, I, s, ins, p, kind, what):
        if isinstance(p, Ptr) and p.r == ("own", kind, "gone"):
            I.need(s, None, "use-after-release", "%s is used on a released %s" % (what, NAMES[kind]), ins)
        I.need(s, (isinstance(p, Ptr) and is_res(p.r) and p.r[1] == kind) or None, "use", "%s is used on something that is no %s" % (what, NAMES[kind]), ins, (p,))

    def on_access(self, I, s, ins, ptr, size, write):
        if is_res(ptr.r) and ptr.r[1] in ("mem", "map"):
            if ptr.r[2] == "gone":
                I.need(s, None, "use-after-release", "released memory is accessed", ins)
            o = s.poly.norm(ptr.o)
            n = s.rinfo[ptr.r].size
            ok = s.poly.entails_ge(o) and s.poly.entails_ge(n - o - size)
            I.need(s, True if ok else None, "in-range", "byte %s is accessed, outside the %s" % (I.show(s, o), NAMES[ptr.r[1]]), ins, (o,))
        elif ptr.r == "T":
            o = s.poly.norm(ptr.o)
            ok = s.poly.entails_ge(o) and s.poly.entails_ge(S("$L") + 1 - o - size)
            I.need(s, True if ok else None, "in-range", "byte %s is read, outside the text" % I.show(s, o), ins, (o,))

    def fork(self, I, s):
        t = s.copy()
        I.mark(s, S("$fork"))
        return s, t

    def call(self, I, s, ins, name, dem, args):
        h = getattr(self, "c_" + name, None)
        if h is not None:
            return h(I, s, ins, args)
        if dem.startswith("std::__cxx11::basic_string<") or dem.startswith("std::basic_string<"):
            return self.string(I, s, ins, dem, args)
        if dem.startswith("std::allocator<char>::") or dem.startswith("std::runtime_error::") or dem.startswith("std::exception::") \
                or dem.startswith("std::logic_error::") or dem.startswith("std::bad_alloc::") or dem.startswith("utl::fail<"):
            return [(s, None if ins["ty"] == "void" else UNDEF)]
        return None

    def string(self, I, s, ins, dem, args):
        if ins["ty"] == "void":
            return [(s, None)]
        if "::data(" in dem or "::c_str(" in dem or "operator[]" in dem or "::begin(" in dem:
            s.rinfo["STR"] = RInfo(None, "input")
            return [(s, Ptr("STR"))]
        if ins["ty"] == "ptr":
            return [(s, args[0] if args else UNDEF)]
        v = I.fresh("str")
        s.poly.add_ge(v)
        return [(s, v)]

    # -- history
    def c_more(self, I, s, ins, args):
        left = s.ghost["left"]
        I.need_ge(s, args[0] - len(s.ghost["live"]), "leak", "%d resources are live, only %s can have an owner" % (len(s.ghost["live"]), I.show(s, args[0])), ins)
        if left == 0:
            return [(s, ZERO)]
        a, b = self.fork(I, s)
        if left > 0:
            a.ghost["left"] = left - 1
        return [(a, ONE), (b, ZERO)]

    def c_pick(self, I, s, ins, args):
        v = I.fresh("pick")
        s.poly.add_ge(v)
        return [(s, v)]

    def c_ints(self, I, s, ins, args):
        return [(s, I.fresh("int"))]

    def c_num(self, I, s, ins, args):
        v = I.fresh("num")
        s.poly.add_ge(v)
        s.poly.add_ge(Lin.c(2 ** 62) - v)
        return [(s, v)]

    def c_fails(self, I, s, ins, args):
        a, b = self.fork(I, s)
        return [(a, ONE), (b, ZERO)]

    def c_view(self, I, s, ins, args):
        p, n = args
        I.need(s, isinstance(n, Lin) or None, "size", "the number of bytes handed out is not a difference within one block (%s)" % I.show(s, n), ins)
        for t, z in I.split_eq(s, n):
            if z:
                continue
            I.need(t, isinstance(p, Ptr) or None, "use", "%s bytes are handed out at %s" % (I.show(t, n), I.show(t, p)), ins)
            self.usable(I, t, ins, p, p.r[1] if isinstance(p, Ptr) and is_res(p.r) and p.r[1] in ("mem", "map") else "mem", "the memory handed out")
            I.need_ge(t, t.rinfo[p.r].size - p.o - n, "size", "more memory is handed out than the block has (%s of %s bytes)" % (I.show(t, n), I.show(t, t.rinfo[p.r].size)), ins)
            I.need_ge(t, p.o, "size", "memory in front of the block is handed out", ins)
        return [(s, None)]

    def c_same(self, I, s, ins, args):
        p, q = args
        ok = isinstance(p, Ptr) and isinstance(q, Ptr) and p.r == q.r or isinstance(p, Lin) and isinstance(q, Lin) and s.poly.entails_eq(p - q)
        I.need(s, True if ok else None, "transfer", "a move does not hand over the resource (%s instead of %s)" % (I.show(s, p), I.show(s, q)), ins, (p, q))
        return [(s, None)]

    def c_live(self, I, s, ins, args):
        self.usable(I, s, ins, args[0], "file", "the handle")
        return [(s, None)]

    # -- content of a buffer made from a text
    def bitcmp(self, I, s, ins, pred, a, b):
        """a handle is neither null nor an error value"""
        flip = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}
        if isinstance(b, Ptr) and is_res(b.r) and isinstance(a, Lin):
            a, b, pred = b, a, flip.get(pred, pred)
        if isinstance(a, Ptr) and is_res(a.r) and isinstance(b, Lin):
            n = s.poly.norm(b)
            if n.is_const() and n.k <= 0:
                if a.r[1] == "fd" and n.k == 0 and pred in ("eq", "ne", "sgt", "sle"):      # 0 is a descriptor
                    return [(t, r == (pred in ("eq", "sle"))) for t, r in I.split_fact(s, "fd0", (a,))]
                if pred in ("eq", "ne"):
                    return [(s, pred == "ne")]
                if pred in flip:
                    return [(s, pred in ("sgt", "sge"))]
        return None

    def init_cell(self, I, s, region, off, size, ty):
        if region == "T" and size == 1:
            return ("nomemo", Ptr("byte:T", off))
        return None

    def on_store(self, I, s, ins, p, size, v):
        if is_res(p.r) and isinstance(v, Ptr) and v.r == "byte:T" and s.poly.entails_eq(p.o - v.o) and s.poly.entails_eq(p.o - (s.ghost["fill"] or ZERO)):
            s.ghost["fill"] = s.poly.norm(p.o + 1)

    def on_memcpy(self, I, s, ins, dst, src, n):
        if isinstance(dst, Ptr) and is_res(dst.r) and isinstance(src, Ptr) and src.r == "T" and s.poly.entails_eq(dst.o - src.o) \
                and s.poly.entails_eq(dst.o - (s.ghost["fill"] or ZERO)):
            s.ghost["fill"] = s.poly.norm(dst.o + n)

    def c_text(self, I, s, ins, args):
        p, n = args
        want = S("$n") if self.sized else S("$L")
        I.need_eq(s, n, want, "content", "the buffer has %s bytes" % I.show(s, n), ins)
        f = s.ghost["fill"]
        for t, z in I.split_eq(s, n):
            if not z:
                ok = isinstance(p, Ptr) and f is not None and t.poly.entails_ge(f - n)
                I.need(t, True if ok else None, "content", "the buffer does not hold the text", ins)
        return [(s, None)]
    sized = False

    # -- memory
    def c_malloc(self, I, s, ins, args):
        a, b = self.fork(I, s)
        out = []
        if I.assume_ge(b, args[0] - 1):
            out.append((b, ZERO))
        return [(a, self.acquire(I, a, "mem", args[0]))] + out

    def c_calloc(self, I, s, ins, args):
        x, y = (s.poly.norm(v) for v in args)
        return self.c_malloc(I, s, ins, [x * y.k if y.is_const() else y * x.k if x.is_const() else I.fresh("size")])

    def c_realloc(self, I, s, ins, args):
        p, n = args
        out = []
        null = isinstance(p, Lin)
        if null:
            return self.c_malloc(I, s, ins, [n])
        for t, z in I.split_eq(s, n):
            if z:
                self.release(I, t, ins, p, "mem", "realloc")     # glibc: frees and returns null
                out.append((t, ZERO))
                continue
            a, b = self.fork(I, t)
            self.release(I, a, ins, p, "mem", "realloc")
            out.append((a, self.acquire(I, a, "mem", n)))
            out.append((b, ZERO))
        return out

    def c_free(self, I, s, ins, args):
        if isinstance(args[0], Lin) and s.poly.entails_eq(args[0]):
            return [(s, None)]
        self.release(I, s, ins, args[0], "mem", "free")
        return [(s, None)]

    def new(self, I, s, ins, args):
        return [(s, self.acquire(I, s, "mem", args[0]))]
    c__Znwm = c__Znam = new

    def delete(self, I, s, ins, args):
        return self.c_free(I, s, ins, args)
    c__ZdlPv = c__ZdaPv = c__ZdlPvm = c__ZdaPvm = delete

    def c_strlen(self, I, s, ins, args):
        p = args[0]
        if not (isinstance(p, Ptr) and p.r == "T"):
            return None
        return [(s, S("$L") - p.o)]

    # -- files
    def c_fopen(self, I, s, ins, args):
        a, b = self.fork(I, s)
        return [(a, self.acquire(I, a, "file", Lin.c(1))), (b, ZERO)]

    def c_fclose(self, I, s, ins, args):
        self.release(I, s, ins, args[0], "file", "fclose")
        return [(s, I.fresh("err"))]

    def fio(self, i, ret=None):
        def h(I, s, ins, args):
            self.usable(I, s, ins, args[i], "file", ins.get("callee", "a stream operation"))
            if ret == "n":
                a, b = self.fork(I, s)
                v = I.fresh("n")
                b.poly.add_ge(v)
                return [(a, args[2])] + ([(b, v)] if I.assume_ge(b, args[2] - v - 1) else [])
            return [(s, None if ins["ty"] == "void" else I.fresh("io"))]
        return h

    def c_fread(self, I, s, ins, args):
        p, one, n = args[0], args[1], args[2]
        if isinstance(p, Ptr) and is_res(p.r) and s.poly.entails_eq(one - 1):
            for t, z in I.split_eq(s, n):
                if not z:
                    self.on_access(I, t, ins, p, n, True)
        return self.fio(3, "n")(I, s, ins, args)

    def c_fwrite(self, I, s, ins, args):
        return self.fio(3, "n")(I, s, ins, args)

    def __getattr__(self, n):
        if n in ("c_fseek", "c_ftell", "c_rewind", "c_fflush", "c_ferror", "c_feof", "c_fileno", "c_fseeko", "c_ftello", "c_clearerr"):
            return self.fio(0)
        raise AttributeError(n)

    # -- descriptors and mappings
    def c_open(self, I, s, ins, args):
        a, b = self.fork(I, s)
        return [(a, self.acquire(I, a, "fd", Lin.c(1))), (b, Lin.c(-1))]

    def c_close(self, I, s, ins, args):
        self.release(I, s, ins, args[0], "fd", "close")
        return [(s, I.fresh("err"))]

    def c_fstat(self, I, s, ins, args):
        self.usable(I, s, ins, args[0], "fd", "fstat")
        t, u = self.fork(I, s)
        if isinstance(args[1], Ptr):
            n = I.fresh("filesize")
            t.poly.add_ge(n)
            t.poly.add_ge(Lin.c(2 ** 62) - n)
            I.write(t, Ptr(args[1].r, args[1].o + 48), 8, n)      # st_size
        return [(t, ZERO), (u, Lin.c(-1))]

    def c_mmap(self, I, s, ins, args):
        n, fd = args[1], args[4]
        a, b = self.fork(I, s)
        out = []
        if I.assume_ge(a, n - 1) and isinstance(fd, Ptr):
            self.usable(I, a, ins, fd, "fd", "mmap")
            out.append((a, self.acquire(I, a, "map", n)))
        return out + [(b, Lin.c(-1))]

    def c_munmap(self, I, s, ins, args):
        p, n = args
        if isinstance(p, Ptr) and p.r in s.ghost["live"]:
            I.need_eq(s, s.rinfo[p.r].size, n, "release", "munmap of %s bytes of a mapping of %s" % (I.show(s, n), I.show(s, s.rinfo[p.r].size)), ins)
        self.release(I, s, ins, p, "map", "munmap")
        return [(s, ZERO)]

    def c_memchr(self, I, s, ins, args):
        p, _, n = args
        a, b = self.fork(I, s)
        k = I.fresh("at")
        a.poly.add_ge(k)
        out = [(b, ZERO)]
        for t, z in I.split_eq(s, n):
            if not z and isinstance(p, Ptr):
                self.on_access(I, t, ins, p, n, False)
        if isinstance(p, Ptr) and I.assume_ge(a, n - k - 1):
            out.append((a, Ptr(p.r, p.o + k)))
        return out

    def c___cxa_end_catch(self, I, s, ins, args):
        if isinstance(s.exc, Ptr):
            s.rinfo.pop(s.exc.r, None)
            s.mem.pop(s.exc.r, None)
        s.exc = None
        return [(s, None)]

    # -- pending actions
    def c_act(self, I, s, ins, args):
        k = s.poly.norm(args[0])
        I.need(s, k.is_const() or None, "action", "unknown action", ins)
        k = int(k.k)
        I.need(s, (k not in s.ghost["acts"]) or None, "double-release", "action %d runs twice" % k, ins)
        I.need(s, (k not in s.ghost["omit"]) or None, "omitted", "action %d runs although it was called off" % k, ins)
        I.need(s, (k in self.expect) or None, "action", "action %d does not exist" % k, ins)
        s.ghost["acts"] = tuple(sorted(s.ghost["acts"] + (k,)))
        return [(s, None)]

    def c_acts(self, I, s, ins, args):
        p = args[0]
        I.need(s, (isinstance(p, Ptr) and p.r in ("g:A1", "g:A2")) or None, "action", "unknown action", ins, (p,))
        return self.c_act(I, s, ins, [Lin.c(int(p.r[3]))])

    def c_pending(self, I, s, ins, args):
        k = int(s.poly.norm(args[0]).k)
        I.need(s, (k not in s.ghost["acts"]) or None, "early", "action %d runs before the end of the scope" % k, ins)
        return [(s, None)]

    def c_resized(self, I, s, ins, args):
        I.need_eq(s, args[0], args[1], "size", "resize(%s) leaves a size of %s" % (I.show(s, args[1]), I.show(s, args[0])), ins)
        return [(s, None)]

    def c_omit(self, I, s, ins, args):
        s.ghost["omit"] = s.ghost["omit"] + (int(s.poly.norm(args[0]).k),)
        return [(s, None)]
    expect = ()

    def exit(self, I, s, kind, val):
        if kind != "return":
            return           # only the constructors called outside of any try block
        for r in s.ghost["live"]:
            I.need(s, None, "leak", "a %s is never released" % NAMES[r[1]])
        I.need(s, True, "leak", "")
        for k in self.expect:
            I.need(s, (k in s.ghost["acts"] or k in s.ghost["omit"]) or None, "leak", "action %d never runs" % k)


def mk(**kw):
    def make():
        m = Own()
        for k, v in kw.items():
            setattr(m, k, v)
        return m
    return make


ENTRIES = [("bu_hist", mk()), ("bu_str", mk()), ("bu_mem", mk(sized=True)), ("fi_hist", mk()), ("mf_hist", mk()), ("mr_hist", mk()), ("rd_hist", mk()),
           ("fy_scope", mk(expect=(1,))), ("fy_macro", mk(expect=(1, 2))), ("fy_hist", mk(expect=(1, 2))),
           ("ra_scope", mk(expect=(1,))), ("ra_lv", mk(expect=(1, 2)))]


def run():
    c = Check("R01", "typestate over arbitrary histories: acquired -> released exactly once, no use afterwards, every exit releases")
    only = os.environ.get("ONLY")
    c.min_sites = 1 if only else 30
    c.assumptions = ["glibc: realloc(p, 0) frees p and returns null, malloc(0) does not fail", "std::string and exception allocation do not fail"]
    m = c.module("own.cc", keep="keep.txt")
    c.par([lambda e=e, f=f: c.analyse(m, e, f, budget=150) for e, f in ENTRIES if not only or e in only.split(",")])
    return c.finish()


if __name__ == "__main__":
    main(run)
