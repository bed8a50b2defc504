"""Text analyses: immutable character ranges of symbolic length.

A text is an input region of $N bytes.  Every byte read must lie inside it;
the value of byte i is one symbol per position.  What a scanner has learned
about a stretch of the text is kept in "scanner" ghosts: hi:<name> is the
largest position such that the named predicate holds for every position in
[anchor, hi).  Facts about single bytes and stretches found by memchr extend it
lazily, so the same knowledge is available whether the code under analysis
scans by hand or calls the library.
"""
from ai import Monitor, Ptr, Lin, Fn, Agg, Cat, Tok, UNDEF, THROW, RInfo, PathEnd, Bottom, ZERO, ONE, AnalysisError
from common import S

UNK = None


class Txt(Monitor):
    texts = {"T": "$N"}
    can_bound = True
    taint = True

    @property
    def const_only(self):
        return self.texts

    # -- set up
    def bind(self, I, s, f):
        for r, n in self.texts.items():
            s.poly.add_ge(S(n))
            s.rinfo[r] = RInfo(S(n), "input", es=1)
        for a in f.fn.args:
            f.regs[a["id"]] = self.arg(I, s, a["name"], a["ty"])
        self.start(I, s)

    def arg(self, I, s, name, ty):
        for r, n in self.texts.items():
            if name == r.lower():
                return Ptr(r)
            if name == r.lower() + "e":
                return Ptr(r, S(n))
            if name == n[1:].lower():
                return S(n)
        if name.startswith("null"):
            return ZERO
        if ty.startswith("i"):
            w = int(ty[1:])
            x = S("$" + name)
            if w <= 32:
                s.poly.add_ge(x + (1 << (w - 1)))
                s.poly.add_ge((1 << (w - 1)) - 1 - x)
            else:
                # any 64 bit value: negative ones stand for sizes >= 2^63
                s.poly.add_ge(x + (1 << 63))
                s.poly.add_ge((1 << 63) - 1 - x)
            return x
        if ty == "ptr":
            r = "X:" + name
            s.rinfo[r] = RInfo(None, "ext")
            return Ptr(r)
        return I.fresh_ty(s, ty, 8)

    def start(self, I, s):
        pass

    def bound(self, I, s, n):
        for r, m in self.texts.items():
            if not I.assume_ge(s, Lin.c(n) - S(m)):
                return False
        return True

    # -- access obligations
    def on_access(self, I, s, ins, ptr, size, write):
        if ptr.r in self.texts:
            n = size if isinstance(size, Lin) else Lin.c(size)
            I.need(s, not write, "text-mutated", "the text is written to", ins)
            self.inside(I, s, ins, ptr, n)

    def inside(self, I, s, ins, ptr, n):
        o = s.poly.norm(ptr.o)
        end = S(self.texts[ptr.r])
        ok = s.poly.entails_ge(o) and s.poly.entails_ge(end - o - n)
        if not ok and s.poly.entails_eq(n):
            return
        I.need(s, True if ok else None, "out-of-bounds", "%s byte(s) read at offset %s of a text of %s bytes" % (I.show(s, n), I.show(s, o), I.show(s, end)), ins, (o, n))

    # -- bytes
    def cell(self, I, s, r, pos):
        return I.find_cell(s, r, s.poly.norm(pos), 1)

    def byte(self, I, s, r, pos):
        """symbol of byte pos (created on demand)"""
        v = self.cell(I, s, r, pos)
        if v is None:
            v = I.fresh("c", w=8, s=s)
            s.mem.setdefault(r, {})[s.poly.norm(pos)] = (1, v)
        return v

    def is_c(self, I, s, r, pos, c):
        """True / False / None: byte pos equals c"""
        v = self.cell(I, s, r, pos)
        if isinstance(v, Lin):
            d = v - c
            if s.poly.entails_eq(d):
                return True
            if s.poly.entails_ne(d):
                return False
        f = I.get_fact(s, "chr", (Ptr(r, s.poly.norm(pos)), c if isinstance(c, Lin) else Lin.c(c)))
        return None if f is None else bool(f)

    def remember(self, I, s, r, pos, c):
        """keep what is known about byte pos across joins"""
        k = self.is_c(I, s, r, pos, c)
        if k is not None:
            I.set_fact(s, "chr", (Ptr(r, s.poly.norm(pos)), c if isinstance(c, Lin) else Lin.c(c)), int(k))
        return k

    # -- scanners: {name: (text, predicate(mon, I, s, pos) -> True/False/None, excluded char(mon, s) or None, direction)}
    # direction +1: the predicate holds on [anchor, hi); direction -1: on [hi, anchor)
    scanners = {}

    def reset(self, s, name, pos):
        s.ghost["hi:" + name] = pos
        s.ghost["an:" + name] = pos

    def absorb(self, I, s, name):
        text, pred, excl, d = self.scanners[name]
        g = "hi:" + name
        for _ in range(64):
            hi = s.poly.norm(s.ghost[g])
            k = pred(self, I, s, hi if d > 0 else hi - 1)
            if k is not None and k is not False:
                # True: one byte; 2: a unit of two bytes
                s.ghost[g] = hi + d * int(k)
                self.advanced(I, s, name, hi if d > 0 else hi - 1)
                continue
            if excl is not None:
                j = self.jump(I, s, text, hi, excl(self, s), d)
                if j is not None:
                    s.ghost[g] = j
                    continue
                if self.apart(I, s, text, hi):
                    continue
            break
        return s.ghost[g]

    def apart(self, I, s, r, hi):
        """bytes with different values are at different positions (near the scanner)"""
        ch = False
        c = [(o, v) for o, (z, v) in s.mem.get(r, {}).items() if z == 1 and isinstance(v, Lin)]
        for (n, a), v in s.facts.items():
            if n == "chr" and v == 0 and a[0].r == r and s.poly.entails_eq(a[0].o - hi + 1):
                for p, w in c:
                    if s.poly.entails_eq(w - a[1]) and s.poly.entails_ge(p - hi + 1) and not s.poly.entails_ge(p - hi):
                        s.poly.add_ge(p - hi)
                        ch = True
        for o, v in c:
            if not s.poly.entails_eq(o - hi + 1):
                continue
            for p, w in c:
                if p is not o and s.poly.entails_ge(p - o) and not s.poly.entails_ge(p - o - 1) and s.poly.entails_ne(v - w):
                    s.poly.add_ge(p - o - 1)
                    ch = True
        return ch

    def advanced(self, I, s, name, pos):
        pass

    def jump(self, I, s, text, hi, c, d=1):
        for (n, a), v in list(s.facts.items()):
            if n != "free" or not isinstance(v, Ptr) or v.r != text:
                continue
            p, ch = a
            if p.r != text or not s.poly.entails_eq(ch - c):
                continue
            if d > 0 and s.poly.entails_ge(hi - p.o) and s.poly.entails_ge(v.o - hi) and not s.poly.entails_eq(v.o - hi):
                return v.o
            if d < 0 and s.poly.entails_ge(hi - p.o) and not s.poly.entails_eq(hi - p.o) and s.poly.entails_ge(v.o - hi):
                return p.o
        return None

    def head(self, I, s):
        if self.infeasible(I, s):
            raise Bottom()
        for n in self.scanners:
            if "hi:" + n in s.ghost:
                self.absorb(I, s, n)
                text, pred, excl, d = self.scanners[n]
                hi = s.ghost["hi:" + n]
                if pred(self, I, s, hi if d > 0 else hi - 1) is False:
                    I.set_fact(s, "no:" + n, (Ptr(text, s.poly.norm(hi if d > 0 else hi - 1)),), 1)
        self.pre_head(I, s)
        if I.mode == "fix":
            # bytes that are not known exactly are left to the scanners
            for r in self.texts:
                c = s.mem.get(r)
                if c:
                    s.mem[r] = {o: x for o, x in c.items() if isinstance(x[1], Lin) and s.poly.norm(x[1]).is_const()}

    def pre_head(self, I, s):
        pass

    def refuted(self, I, s, name, pos):
        """the predicate of a scanner is known not to hold at pos"""
        text, pred, excl, d = self.scanners[name]
        return pred(self, I, s, pos) is False or I.get_fact(s, "no:" + name, (Ptr(text, s.poly.norm(pos)),)) == 1

    def infeasible(self, I, s):
        """one position with two values, or a byte inside a stretch free of it"""
        t = s.copy()
        for r in self.texts:
            c = [(o, v) for o, (z, v) in t.mem.get(r, {}).items() if z == 1 and isinstance(v, Lin)]
            for i, (o, v) in enumerate(c):
                for p, w in c[:i]:
                    if t.poly.entails_eq(o - p) and not I.assume_eq(t, v - w):
                        return True
                for (n, a), q in t.facts.items():
                    if n == "free" and a[0].r == r and isinstance(q, Ptr) and t.poly.entails_ge(o - a[0].o) and t.poly.entails_ge(q.o - o - 1) and t.poly.entails_eq(v - a[1]):
                        return True
        for (n, a), v in list(t.facts.items()):
            if n == "chr":
                b = self.cell(I, t, a[0].r, a[0].o)
                if isinstance(b, Lin) and (t.poly.entails_ne(b - a[1]) if v else t.poly.entails_eq(b - a[1])):
                    return True
            if not n.startswith("no:"):
                continue
            text, pred, excl, d = self.scanners[n[3:]]
            for m, (text2, pred2, _, d2) in self.scanners.items():
                if pred2 is pred and text2 == text and "hi:" + m in t.ghost:
                    lo, hi = t.ghost["an:" + m], t.ghost["hi:" + m]
                    if d2 < 0:
                        lo, hi = hi, lo
                    if t.poly.entails_ge(a[0].o - lo) and t.poly.entails_ge(hi - a[0].o - 1):
                        return True
        return not t.poly.sat()

    def values(self, I, s, *syms):
        """bounded slices: all states with concrete values for the given lengths"""
        out = [s.copy()]
        for y in syms:
            nx = []
            for t in out:
                for n in range(0, 9):
                    u = t.copy()
                    if I.assume_eq(u, S(y) - n) and not self.infeasible(I, u):
                        nx.append(u)
            out = nx
        return out

    def same_at(self, I, t, r, k, q, m):
        """bounded slices: r[k..k+m) equals q[0..m): True / False / None, by the comparisons made so far"""
        f = I.get_fact(t, "memeq", (Ptr(r, k), Ptr(q), Lin.c(m)))
        if f is not None:
            return bool(f)
        res = True
        for j in range(m):
            a, b = self.cell(I, t, r, Lin.c(k + j)), self.cell(I, t, q, Lin.c(j))
            if a is None or b is None:
                res = None
            elif t.poly.entails_ne(a - b):
                return False
            elif not t.poly.entails_eq(a - b):
                res = None
        return res

    # -- library calls
    def call(self, I, s, ins, name, dem, args):
        h = getattr(self, "c_" + name, None)
        if h is not None:
            r = h(I, s, ins, args)
            return [(s, None)] if r is None else r
        h = getattr(self, "lib_" + name, None)
        if h is not None:
            return h(I, s, ins, args)
        if "basic_string_view<" in dem and "::find(" in dem:
            return self.sv_find(I, s, ins, dem, args)
        if "basic_string<" in dem:
            return self.string_op(I, s, ins, name, dem, args)
        return None

    def lib_memchr(self, I, s, ins, args):
        p, c, n = args
        if isinstance(p, Lin) and isinstance(n, Lin) and s.poly.entails_eq(n):
            return [(s, ZERO)]
        if isinstance(p, Ptr) and isinstance(p.r, str) and p.r.startswith("g:"):
            return self.const_chr(I, s, p, c, n)
        if not isinstance(p, Ptr) or p.r not in self.texts:
            return None
        self.inside(I, s, ins, p, n)
        out = []
        # the searched char is converted to unsigned char
        cc = s.poly.norm(c)
        if cc.is_const():
            k = int(cc.k) & 255
            cc = Lin.c(k - 256 if k > 127 else k)
        t = s.copy()
        I.set_fact(s, "free", (p, cc), Ptr(p.r, s.poly.norm(p.o + n)))
        out.append((s, ZERO))
        q = I.fresh("q", s=t)
        try:
            t.poly.add_ge(q - p.o)
            t.poly.add_ge(p.o + n - q - 1)
        except Bottom:
            return out
        if t.poly.sat() is False:
            return out
        b = I.find_cell(t, p.r, q, 1)
        if b is None:
            t.mem.setdefault(p.r, {})[t.poly.norm(q)] = (1, cc)
        elif not I.assume_eq(t, b - cc):
            return out
        I.set_fact(t, "free", (p, cc), Ptr(p.r, q))
        out.append((t, Ptr(p.r, q)))
        return out

    def ranges(self, I, s, x, *rs):
        """[(state, in one of the ranges)]"""
        out = []
        rest = [s]
        for lo, hi in rs:
            nr = []
            for t in rest:
                for u, ge in I.split_ge(t, x - lo):
                    if not ge:
                        nr.append(u)
                        continue
                    for w, le in I.split_ge(u, Lin.c(hi) - x):
                        if le:
                            out.append((w, True))
                        else:
                            nr.append(w)
            rest = nr
        return out + [(t, False) for t in rest]

    def lib_tolower(self, I, s, ins, args):
        return [(t, args[0] + 32 if k else args[0]) for t, k in self.ranges(I, s, args[0], (65, 90))] if isinstance(args[0], Lin) else None

    def lib_toupper(self, I, s, ins, args):
        return [(t, args[0] - 32 if k else args[0]) for t, k in self.ranges(I, s, args[0], (97, 122))] if isinstance(args[0], Lin) else None

    def ctype(*rs):
        def f(self, I, s, ins, args):
            return [(t, ONE if k else ZERO) for t, k in self.ranges(I, s, args[0], *rs)] if isinstance(args[0], Lin) else None
        return f

    def lib__ZNKSt9type_info4nameEv(self, I, s, ins, args):
        r = "X:tyname"
        s.rinfo.setdefault(r, RInfo(None, "ext"))
        return [(s, Ptr(r))]

    lib_isdigit = ctype((48, 57))
    lib_isspace = ctype((9, 13), (32, 32))
    lib_isalpha = ctype((65, 90), (97, 122))
    lib_isalnum = ctype((48, 57), (65, 90), (97, 122))
    lib_isupper = ctype((65, 90))
    lib_islower = ctype((97, 122))

    def lib_memrchr(self, I, s, ins, args):
        p, c, n = args
        if not isinstance(p, Ptr) or p.r not in self.texts:
            return None
        self.inside(I, s, ins, p, n)
        t = s.copy()
        I.set_fact(s, "free", (p, c), Ptr(p.r, s.poly.norm(p.o + n)))
        q = I.fresh("q", s=t)
        if not I.assume_ge(t, q - p.o) or not I.assume_ge(t, p.o + n - q - 1) or not I.assume_eq(t, self.byte(I, t, p.r, q) - c):
            return [(s, ZERO)]
        I.set_fact(t, "free", (Ptr(p.r, t.poly.norm(q + 1)), c), Ptr(p.r, t.poly.norm(p.o + n)))
        return [(s, ZERO), (t, Ptr(p.r, q))]

    def nul(self, I, s, ins, args):
        for x in args[:2]:
            if isinstance(x, Ptr) and x.r in self.texts:
                I.need(s, None, "out-of-bounds", "the text is read up to a NUL byte that it need not contain", ins)
        return None

    lib_strchr = lib_strrchr = lib_strstr = lib_strcpy = lib_atoi = lib_atol = lib_strtol = lib_strtod = lib_strtof = lib_strtoul = lib_strspn = lib_strcspn = lib_strpbrk = nul

    def const_chr(self, I, s, p, c, n):
        """membership of a character in a constant string"""
        g = I.m.globals.get(p.r[2:], {})
        nn, o = s.poly.norm(n), s.poly.norm(p.o)
        if "str" not in g or not nn.is_const() or not o.is_const():
            return None
        b = bytes.fromhex(g["str"])[int(o.k):int(o.k) + int(nn.k)]
        out = []
        rest = [s]
        for i, ch in enumerate(b):
            k = ch - 256 if ch > 127 else ch
            nr = []
            for t in rest:
                for u, e in I.split_eq(t, c - k):
                    if e:
                        out.append((u, Ptr(p.r, o + i)))
                    else:
                        nr.append(u)
            rest = nr
        return out + [(t, ZERO) for t in rest]

    def const_bytes(self, I, s, p, n):
        if isinstance(p, Ptr) and isinstance(p.r, str) and p.r.startswith("g:"):
            g = I.m.globals.get(p.r[2:], {})
            o, nn = s.poly.norm(p.o), s.poly.norm(n)
            if "str" in g and o.is_const() and nn.is_const():
                b = bytes.fromhex(g["str"])[int(o.k):int(o.k) + int(nn.k)]
                if len(b) == int(nn.k):
                    return [x - 256 if x > 127 else x for x in b]
        return None

    def compare(self, I, s, ins, args, fact):
        p, q, n = args
        if isinstance(n, Lin) and s.poly.entails_eq(n):
            return [(s, ZERO)]
        for x in (p, q):
            if isinstance(x, Ptr) and x.r in self.texts:
                self.inside(I, s, ins, x, n)
        if not isinstance(p, Ptr) or not isinstance(q, Ptr):
            # null with a length that is not provably zero
            out = []
            for t, z in I.split_eq(s, n):
                if z:
                    out.append((t, ZERO))
                else:
                    I.need(t, None, "null-deref", "null text compared", ins)
            return out
        nn = s.poly.norm(n)
        for x in (p, q):
            if not nn.is_const() and isinstance(x.r, str) and x.r.startswith("g:") and "str" in I.m.globals.get(x.r[2:], {}):
                # a length that is not written as a constant: one case per length of the constant
                out, rest = [], s
                for k in range(len(I.m.globals[x.r[2:]]["str"]) // 2 + 1):
                    nx = None
                    for t, e in I.split_eq(rest, n - k):
                        if e:
                            out += self.compare(I, t, ins, [p, q, Lin.c(k)], fact)
                        else:
                            nx = t
                    rest = nx
                    if rest is None:
                        return out
                return None if not out else out + [(rest, I.fresh("cmp", s=rest, lossy=True))]
        cb = self.const_bytes(I, s, q, n)
        tx = p
        if cb is None:
            cb = self.const_bytes(I, s, p, n)
            tx = q
        if cb is not None and tx.r in self.texts:
            rest = [s]
            out = []
            for i, k in enumerate(cb):
                nr = []
                for t in rest:
                    for u, e in I.split_eq(t, self.byte(I, t, tx.r, tx.o + i) - k):
                        if e:
                            nr.append(u)
                        else:
                            out.append((u, ONE))
                rest = nr
            return out + [(t, ZERO) for t in rest]
        out = []
        if str(p.r) > str(q.r):
            p, q = q, p
        for t0, z in I.split_eq(s, n):
            if z:
                out.append((t0, ZERO))
                continue
            if not I.assume_ge(t0, n - 1):
                continue
            for t, e in I.split_fact(t0, fact, (p, q, t0.poly.norm(n))):
                if e:
                    out.append((t, ZERO))
                else:
                    u = t.copy()
                    r = I.fresh("cmp", s=t, lo=1)
                    out.append((t, r))
                    out.append((u, -I.fresh("cmp", s=u, lo=1)))
        return out

    def lib_memcmp(self, I, s, ins, args):
        return self.compare(I, s, ins, args, "memeq")

    lib_bcmp = lib_memcmp

    def lib_strncmp(self, I, s, ins, args):
        # stops at a NUL byte: equality of the prefixes up to it only
        return self.compare(I, s, ins, args, "streq")

    def lib_strcmp(self, I, s, ins, args):
        for x in args[:2]:
            if isinstance(x, Ptr) and x.r in self.texts:
                I.need(s, None, "out-of-bounds", "strcmp reads up to a NUL byte that the text need not contain", ins)
        return None

    def lib_strlen(self, I, s, ins, args):
        p = args[0]
        if isinstance(p, Ptr) and p.r in self.texts:
            I.need(s, None, "out-of-bounds", "strlen reads up to a NUL byte that the text need not contain", ins)
        if isinstance(p, Ptr) and isinstance(p.r, str) and p.r.startswith("g:"):
            g = I.m.globals.get(p.r[2:], {})
            o = s.poly.norm(p.o)
            if "str" in g and o.is_const():
                b = bytes.fromhex(g["str"])[int(o.k):]
                return [(s, Lin.c(b.index(0)))]
        return None

    def lib_tolower(self, I, s, ins, args):
        c = args[0]
        I.need(s, True if s.poly.entails_ge(c + 1) else None, "ctype-domain", "tolower called with a negative character", ins, (c,)) if self.ctype_domain else None
        out = []
        for t, a in I.split_ge(s, c - 65):
            if not a:
                out.append((t, c))
                continue
            for u, b in I.split_ge(t, Lin.c(90) - c):
                out.append((u, c + 32 if b else c))
        return out

    def lib_toupper(self, I, s, ins, args):
        c = args[0]
        out = []
        for t, a in I.split_ge(s, c - 97):
            if not a:
                out.append((t, c))
                continue
            for u, b in I.split_ge(t, Lin.c(122) - c):
                out.append((u, c - 32 if b else c))
        return out

    ctype_domain = False

    def sv_find(self, I, s, ins, dem, args):
        """string_view::find"""
        this = args[0]
        p = I.load(s, ins, Ptr(this.r, this.o + 8), 8, "ptr")
        n = I.load(s, ins, this, 8, "i64")
        if "::find(std::basic_string_view" in dem or "::find(char const*" in dem:
            if len(args) == 4 and isinstance(args[1], Lin):
                m, q, frm = args[1], args[2], args[3]
            elif "unsigned long, unsigned long)" in dem:
                q, frm, m = args[1], args[2], args[3]
            else:
                return None
            return self.find_str(I, s, ins, p, n, q, m, frm)
        if "::find(char" in dem:
            return self.find_chr(I, s, ins, p, n, args[1], args[2])
        return None

    def find_str(self, I, s, ins, p, n, q, m, frm):
        f = s.poly.norm(frm)
        if not f.is_const():
            return None
        for x, l in ((p, n), (q, m)):
            if isinstance(x, Ptr) and x.r in self.texts:
                self.inside(I, s, ins, x, l)
        if not isinstance(p, Ptr):
            return [(t, ZERO if z else Lin.c(-1)) for t, z in I.split_eq(s, m)]
        if f.k:
            p, n = Ptr(p.r, p.o + f), n - f
        out = []
        for t, e in I.split_fact(s, "occurs", (p, s.poly.norm(n), q, s.poly.norm(m))):
            if e:
                k = I.fresh("at", s=t, lo=0)
                if not I.assume_ge(t, n - m - k):
                    continue
                at = Ptr(p.r, t.poly.norm(p.o + k))
                I.set_fact(t, "memeq", (at, q, t.poly.norm(m)), 1)
                I.set_fact(t, "first", (p, t.poly.norm(n), q, t.poly.norm(m)), at)
                out.append((t, k + f))
            else:
                out.append((t, Lin.c(-1)))
        return out

    def find_chr(self, I, s, ins, p, n, c, frm):
        out = []
        for t, ge in self.usplit(I, s, frm, n):
            if ge:
                out.append((t, Lin.c(-1)))
                continue
            r = self.lib_memchr(I, t, ins, [Ptr(p.r, p.o + frm), c, n - frm])
            if r is None:
                return None
            for u, v in r:
                out.append((u, v.o - p.o if isinstance(v, Ptr) else Lin.c(-1)))
        return out

    def usplit(self, I, s, a, b):
        """[(state, a >= b)] as unsigned 64 bit values, 0 <= b < 2^63"""
        out = []
        for t, nn in I.split_ge(s, a):
            if not nn:
                out.append((t, True))
            else:
                out += I.split_ge(t, a - b)
        return out

    # -- std::string: {data, size}; assigning text aliases it (texts are immutable)
    def string_op(self, I, s, ins, name, dem, args):
        tail = dem.split("basic_string<", 1)[1]
        k = tail.find(">::")
        # skip template arguments
        d = 1
        for i, ch in enumerate(tail):
            if ch == "<":
                d += 1
            elif ch == ">":
                d -= 1
                if d == 0:
                    k = i
                    break
        m = tail[k + 3:]
        this = args[0] if args else None
        if not isinstance(this, Ptr):
            return None

        def put(p, n):
            I.write(s, this, 8, p)
            I.write(s, Ptr(this.r, this.o + 8), 8, n)

        def get():
            return I.load(s, ins, this, 8, "ptr"), I.load(s, ins, Ptr(this.r, this.o + 8), 8, "i64")
        if m.startswith("~basic_string"):
            return [(s, None)]
        if m.startswith("basic_string(char const*, unsigned long") or m.startswith("assign(char const*, unsigned long)"):
            if isinstance(args[1], Ptr) and args[1].r in self.texts:
                self.inside(I, s, ins, args[1], args[2])
            put(args[1], args[2])
            return [(s, this if m.startswith("assign") else None)]
        if m.startswith("basic_string()") or m.startswith("basic_string(std::allocator"):
            put(Ptr("g:empty"), ZERO)
            return [(s, None)]
        if m.startswith("basic_string<std::allocator<char>>(char const*, std::allocator") or m.startswith("basic_string<std::allocator<char> >(char const*") or m.startswith("assign(char const*)") or m.startswith("operator=(char const*)"):
            r = self.lib_strlen(I, s, ins, [args[1]])
            put(args[1], r[0][1] if r else I.fresh("len", s=s, lo=0, lossy=True))
            return [(s, this)]
        if m.startswith("size()") or m.startswith("length()"):
            return [(s, get()[1])]
        if m.startswith("data()") or m.startswith("c_str()") or m.startswith("begin()"):
            return [(s, get()[0])]
        if m.startswith("empty()"):
            return [(t, ONE if e else ZERO) for t, e in I.split_eq(s, get()[1])]
        if m.startswith("operator std::basic_string_view") or m.startswith("operator std::__"):
            p, n = get()
            return [(s, Agg((n, p)))]
        return self.string_more(I, s, ins, m, this, args)

    def string_more(self, I, s, ins, m, this, args):
        return None

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "ends with an exception")


def not_sep(m, I, s, p):
    return {True: False, False: True}.get(m.is_c(I, s, "T", p, m.sep(s)))


class Pieces(Txt):
    """tokens / lines: consecutive pieces between separators, in order, none lost, none invented"""
    scanners = {"s": ("T", not_sep, lambda m, s: m.sep(s), 1)}
    cr = False          # one carriage return before the separator is not part of the piece
    newline = True

    def sep(self, s):
        return Lin.c(10) if self.newline else S("$sep")

    def start(self, I, s):
        s.ghost["g"] = ZERO
        s.ghost["cnt"] = ZERO
        s.ghost["open"] = 1
        self.reset(s, "s", ZERO)

    def pre_head(self, I, s):
        # where the stretch without separators ends, and whether a carriage return precedes it
        hi, g = s.poly.norm(s.ghost["hi:s"]), s.ghost["g"]
        e = "N" if s.poly.entails_eq(hi - S(self.texts["T"])) else self.remember(I, s, "T", hi, self.sep(s))
        c = None
        if self.cr:
            c = "empty" if s.poly.entails_eq(hi - g) else self.remember(I, s, "T", hi - 1, 13)
        s.ghost["stop"] = (e, c)

    def invariants(self, I, s):
        s.poly.add_ge(s.ghost["cnt"])       # pieces are counted from zero

    def stop_at(self, I, t, e):
        """[(state, start of the next piece or None)]"""
        n = S(self.texts["T"])
        if t.poly.entails_eq(e - n):
            return n
        if self.is_c(I, t, "T", e, self.sep(t)) is True:
            return e + 1
        return None

    def after(self, I, t, g, e):
        if not self.cr:
            return self.stop_at(I, t, e)
        if self.is_c(I, t, "T", e, 13) is True:
            r = self.stop_at(I, t, e + 1)
            if r is not None:
                return r
        if t.poly.entails_eq(e - g) or self.is_c(I, t, "T", e - 1, 13) is False:
            return self.stop_at(I, t, e)
        return None

    def piece(self, I, s, ins, p, n):
        """a piece is reported; returns the states after it"""
        g = s.ghost["g"]
        N = S(self.texts["T"])
        I.need(s, s.ghost["open"] == 1 or None, "after-stop", "a piece is reported after the callback asked to stop", ins)
        I.need(s, True if isinstance(p, Ptr) and p.r == "T" else None, "view-inside", "the piece is not a view of the text (%s)" % I.show(s, p), ins, (p,))
        I.need_ge(s, n, "view-inside", "piece with a wrapped length", ins)
        I.need_ge(s, N - p.o - n, "view-inside", "piece ends behind the text", ins)
        I.need_eq(s, p.o, g, "piece-start", "the piece must start where the previous one ended", ins)
        I.need_ge(s, N - g - 1, "extra-piece", "a piece is reported although the text is exhausted", ins)
        e = s.poly.norm(p.o + n)
        h = self.absorb(I, s, "s")
        I.need(s, True if s.poly.entails_ge(h - e) else None, "separator-inside", "the piece may contain a separator", ins)
        outs = [s]
        if self.cr:
            # decide whether the piece is empty
            outs = [t for t, _ in I.split_eq(s, e - g)]
        for t in outs:
            nx = self.after(I, t, g, e)
            I.need(t, True if nx is not None else None, "piece-end", "the piece does not end at a separator or the end of the text", ins)
            t.ghost["prev"] = g
            t.ghost["g"] = nx
            self.reset(t, "s", nx)
            t.ghost["cnt"] = t.ghost["cnt"] + 1
            t.ev("piece", g, e)
        return outs

    def c_out(self, I, s, ins, args):
        return [(t, None) for t in self.piece(I, s, ins, args[0], args[1])]

    def c_outn(self, I, s, ins, args):
        I.need_eq(s, args[0], s.ghost["cnt"] + 1, "piece-number", "number passed with the piece", ins)

    def exit(self, I, s, kind, val):
        I.need(s, kind == "return" or None, "no-throw", "ends with an exception")
        if s.ghost["open"] == 1:
            I.need_eq(s, s.ghost["g"], S(self.texts["T"]), "text-left", "pieces of the text are not reported")
