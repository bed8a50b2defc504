"""Convex polyhedra over integer symbols (equalities + inequalities).

A relational numeric abstract domain (Cousot & Halbwachs 1978) in constraint
form: equalities are kept in solved form (Karr), inequalities as a list,
entailment is decided by Fourier-Motzkin elimination with integer tightening,
join keeps the affine hull plus every constraint of one side that the other
entails, widening keeps the stable constraints.
"""
from fractions import Fraction
from math import gcd

ZERO = None


class Lin:
    """Immutable affine expression  sum(c_i * s_i) + k."""
    __slots__ = ("t", "k", "_h")

    def __init__(self, terms=(), k=0):
        if isinstance(terms, dict):
            terms = tuple(sorted(((s, c) for s, c in terms.items() if c != 0)))
        self.t = terms
        self.k = k
        self._h = None

    @staticmethod
    def sym(s):
        return Lin(((s, 1),), 0)

    @staticmethod
    def c(k):
        return Lin((), k)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.t, self.k))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.t == o.t and self.k == o.k

    def is_const(self):
        return not self.t

    def __add__(self, o):
        if isinstance(o, (int, Fraction)):
            return Lin(self.t, self.k + o) if o else self
        if not o.t:
            return Lin(self.t, self.k + o.k)
        if not self.t:
            return Lin(o.t, self.k + o.k)
        d = dict(self.t)
        for s, c in o.t:
            d[s] = d.get(s, 0) + c
        return Lin(d, self.k + o.k)

    __radd__ = __add__

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return Lin(tuple((s, -c) for s, c in self.t), -self.k)

    def __sub__(self, o):
        if isinstance(o, (int, Fraction)):
            return self + (-o)
        return self + (-o)

    def __mul__(self, m):
        if m == 0:
            return Lin((), 0)
        return Lin(tuple((s, c * m) for s, c in self.t), self.k * m)

    def divexact(self, m):
        """self/m if every coefficient is divisible, else None"""
        if any(Fraction(c, 1) % m for _, c in self.t) or self.k % m:
            return None
        return Lin(tuple((s, c // m) for s, c in self.t), self.k // m)

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for x, c in self.t:
            if x == s:
                return c
        return 0

    def subst(self, s, e):
        c = self.coef(s)
        if c == 0:
            return self
        return Lin(tuple((x, k) for x, k in self.t if x != s), self.k) + e * c

    def rename(self, m):
        if not any(s in m for s, _ in self.t):
            return self
        d = {}
        for s, c in self.t:
            s2 = m.get(s, s)
            d[s2] = d.get(s2, 0) + c
        return Lin(d, self.k)

    def __repr__(self):
        if not self.t:
            return str(self.k)
        r = []
        for s, c in self.t:
            r.append(("+" if c > 0 else "-") + ("" if abs(c) == 1 else str(abs(c)) + "*") + str(s))
        if self.k:
            r.append(("+" if self.k > 0 else "-") + str(abs(self.k)))
        return "".join(r).lstrip("+")


ZERO = Lin.c(0)
ONE = Lin.c(1)


def normge(e):
    """normalise e >= 0 over integer symbols (divide by gcd, floor constant)"""
    if not e.t:
        return e
    den = 1
    for _, c in e.t:
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    if isinstance(e.k, Fraction):
        den = den * e.k.denominator // gcd(den, e.k.denominator)
    if den != 1:
        e = Lin(tuple((s, int(c * den)) for s, c in e.t), int(e.k * den))
    else:
        e = Lin(tuple((s, int(c)) for s, c in e.t), int(e.k))
    g = 0
    for _, c in e.t:
        g = gcd(g, abs(c))
    if g > 1:
        e = Lin(tuple((s, c // g) for s, c in e.t), e.k // g)
    return e


class Bottom(Exception):
    pass


class Poly:
    __slots__ = ("eq", "ge", "_cache")

    def __init__(self, eq=None, ge=None):
        self.eq = eq if eq is not None else {}   # sym -> Lin (solved form)
        self.ge = ge if ge is not None else {}   # Lin.t -> Lin (tightest e>=0)
        self._cache = {}

    def copy(self):
        p = Poly(dict(self.eq), dict(self.ge))
        p._cache = self._cache
        return p

    def norm(self, e):
        hit = [s for s, _ in e.t if s in self.eq]
        for s in hit:
            e = e.subst(s, self.eq[s])
        return e

    # -- adding constraints (mutating; raise Bottom on contradiction)
    def add_eq(self, e, avoid=()):
        e = self.norm(e)
        self._cache = {}
        if not e.t:
            if e.k != 0:
                raise Bottom()
            return
        # integrality
        e = self._int(e)
        g = 0
        for _, c in e.t:
            g = gcd(g, abs(c))
        if g > 1:
            if e.k % g:
                raise Bottom()
            e = Lin(tuple((s, c // g) for s, c in e.t), e.k // g)
        # choose pivot: unit coefficient and preferably not in avoid
        best = None
        for s, c in e.t:
            sc = (0 if abs(c) == 1 else 1, 1 if s in avoid else 0, 0 if not _perm(s) else 1)
            if best is None or sc < best[0]:
                best = (sc, s, c)
        _, s, c = best
        rest = Lin(tuple((x, k) for x, k in e.t if x != s), e.k)
        if abs(c) == 1:
            sol = rest * (-c)
        else:
            sol = rest * Fraction(-1, c)
        self._substitute(s, sol)

    @staticmethod
    def _int(e):
        den = 1
        for _, c in e.t:
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
        if isinstance(e.k, Fraction):
            den = den * e.k.denominator // gcd(den, e.k.denominator)
        return Lin(tuple((s, int(c * den)) for s, c in e.t), int(e.k * den))

    def _substitute(self, s, sol):
        for x in list(self.eq):
            if self.eq[x].coef(s):
                self.eq[x] = self.eq[x].subst(s, sol)
        self.eq[s] = sol
        old = self.ge
        self.ge = {}
        for e in old.values():
            if e.coef(s):
                e = e.subst(s, sol)
            self._ins(e)

    def _ins(self, e):
        e = normge(e)
        if not e.t:
            if e.k < 0:
                raise Bottom()
            return
        o = self.ge.get(e.t)
        if o is None or e.k < o.k:
            self.ge[e.t] = e

    def add_ge(self, e):
        e = normge(self.norm(e))
        if not e.t:
            if e.k < 0:
                raise Bottom()
            return
        o = self.ge.get(e.t)
        if o is not None and o.k <= e.k:
            return
        # opposite bound -> equality
        opp = self.ge.get((-e).t)
        if opp is not None:
            # e >= 0 and -e.t + opp.k >= 0  => e.t >= -e.k and e.t <= opp.k
            if opp.k + e.k < 0:
                raise Bottom()
            if opp.k + e.k == 0:
                del self.ge[opp.t]
                self.ge.pop(e.t, None)
                self.add_eq(e)
                return
        self._cache = {}
        self.ge[e.t] = e

    # -- queries
    def _component(self, syms):
        want = set(syms)
        cons = list(self.ge.values())
        used = []
        changed = True
        while changed:
            changed = False
            rest = []
            for e in cons:
                if any(s in want for s, _ in e.t):
                    used.append(e)
                    for s, _ in e.t:
                        if s not in want:
                            want.add(s)
                    changed = True
                else:
                    rest.append(e)
            cons = rest
        return used

    def entails_ge(self, e):
        e = normge(self.norm(e))
        if not e.t:
            return e.k >= 0
        o = self.ge.get(e.t)
        if o is not None and o.k <= e.k:
            return True
        key = e
        r = self._cache.get(key)
        if r is not None:
            return r
        neg = normge(-e - 1)
        r = not feasible(self._component(e.syms()) + [neg])
        self._cache[key] = r
        return r

    def entails_eq(self, e):
        e = self.norm(e)
        if not e.t:
            return e.k == 0
        return self.entails_ge(e) and self.entails_ge(-e)

    def sat(self):
        return feasible(list(self.ge.values()))

    def entails_ne(self, e):
        e = self.norm(e)
        if not e.t:
            return e.k != 0
        return self.entails_ge(e - 1) or self.entails_ge(-e - 1)

    def bounds(self, e, lo, hi):
        return self.entails_ge(e - lo) and self.entails_ge(Lin.c(hi) - e)

    # -- projection: eliminate all symbols for which drop(s) is true
    def project(self, drop):
        p = Poly(dict(self.eq), dict(self.ge))
        # equalities: make dropped symbols pivots, then delete those rows
        for s in list(p.eq):
            if s in p.eq and not drop(s):
                e = p.eq[s]
                d = [x for x, _ in e.t if drop(x)]
                if d:
                    # re-pivot on dropped symbol
                    d.sort(key=lambda x: (0 if abs(e.coef(x)) == 1 else 1, str(x)))
                    x = d[0]
                    c = e.coef(x)
                    # s = e  ->  x = (s - (e - c x)) / c
                    rest = Lin(tuple((y, k) for y, k in e.t if y != x), e.k)
                    num = Lin.sym(s) - rest
                    sol = num if c == 1 else (num * -1 if c == -1 else num * Fraction(1, c))
                    del p.eq[s]
                    p._substitute(x, sol)
        for s in list(p.eq):
            if drop(s):
                del p.eq[s]
        # inequalities
        syms = set()
        for e in p.ge.values():
            for s, _ in e.t:
                if drop(s):
                    syms.add(s)
        cons = list(p.ge.values())
        cons = eliminate(cons, syms)
        p.ge = {}
        for e in cons:
            p._ins(e)
        p._tighten_eq()
        p._cache = {}
        return p

    def _tighten_eq(self):
        for t in list(self.ge):
            e = self.ge.get(t)
            if e is None:
                continue
            o = self.ge.get((-e).t)
            if o is not None and o.k + e.k == 0:
                del self.ge[t]
                self.ge.pop(o.t, None)
                self.add_eq(e)
                return self._tighten_eq()

    def constraints(self):
        out = []
        for s, e in self.eq.items():
            d = Lin.sym(s) - e
            out.append(d)
            out.append(-d)
        out.extend(self.ge.values())
        return out

    def join(self, o):
        """affine hull of equalities + mutually entailed inequalities"""
        r = Poly()
        for e in affine_hull(self, o):
            try:
                r.add_eq(e)
            except Bottom:
                pass
        za, zb = zone(self), zone(o)

        def rank(kv):
            (x, y), _ = kv
            return ((x in r.eq) + (y in r.eq), str(x), str(y))
        for key, ka in sorted(za.items(), key=rank):
            kb = zb.get(key)
            if kb is None:
                continue
            x, y = key          # x - y <= k
            e = Lin.c(max(ka, kb))
            if x is not None:
                e = e - Lin.sym(x)
            if y is not None:
                e = e + Lin.sym(y)
            if not r.entails_ge(e):
                r.add_ge(e)
        for a, b in ((self, o), (o, self)):
            for e in a.constraints():
                if r.entails_ge(e):
                    continue
                if b.entails_ge(e):
                    r.add_ge(e)
                else:
                    # relax the constant: bound of e in b
                    k = b.lower_bound(e)
                    if k is not None:
                        e2 = e - k
                        if not r.entails_ge(e2):
                            r.add_ge(e2)
        r._cache = {}
        return r

    def lower_bound(self, e, lim=64):
        """greatest small k with e >= k, or None"""
        e = self.norm(e)
        if not e.t:
            return e.k if isinstance(e.k, int) else None
        for k in (-1, -2, -3, -4, -8, -16, -lim):
            if self.entails_ge(e - k):
                return k
        return None

    def widen(self, o, closure=True):
        """keep the constraints of self (and its difference closure) that o entails"""
        r = Poly()
        for e in affine_hull(self, o):
            try:
                r.add_eq(e)
            except Bottom:
                pass
        cand = []
        if closure:
            zo = zone(o)
            for (x, y), k in sorted(zone(self).items(), key=lambda kv: ((kv[0][0] in self.eq) + (kv[0][1] in self.eq), str(kv[0]))):
                ko = zo.get((x, y))
                if ko is None:
                    continue
                if ko > k:
                    k = next((h for h in (-1, 0, 1) if h >= ko), None)
                if k is not None:
                    e = Lin.c(k)
                    if x is not None:
                        e = e - Lin.sym(x)
                    if y is not None:
                        e = e + Lin.sym(y)
                    cand.append(e)
        for e in cand + self.constraints():
            if o.entails_ge(e) and not r.entails_ge(e):
                r.add_ge(e)
        r._cache = {}
        return r

    def includes(self, o):
        """every point of o is in self"""
        for s, e in self.eq.items():
            if not o.entails_eq(Lin.sym(s) - e):
                return False
        for e in self.ge.values():
            if not o.entails_ge(e):
                return False
        return True

    def rename(self, m):
        r = Poly()
        for s, e in self.eq.items():
            r.add_eq(Lin.sym(m.get(s, s)) - e.rename(m))
        for e in self.ge.values():
            r.add_ge(e.rename(m))
        return r

    def __repr__(self):
        return "{" + "; ".join(["%s=%r" % (s, e) for s, e in sorted(self.eq.items(), key=lambda x: str(x[0]))] +
                               ["%r>=0" % e for e in self.ge.values()]) + "}"


def zone(p):
    """difference-bound closure {(x, y): k} meaning x - y <= k (None = 0)"""
    d = {}
    nodes = {None}

    def put(e):
        # e >= 0
        if len(e.t) == 1:
            s, c = e.t[0]
            if c == 1:
                x, y = None, s
            elif c == -1:
                x, y = s, None
            else:
                return
        elif len(e.t) == 2:
            (s1, c1), (s2, c2) = e.t
            if c1 == 1 and c2 == -1:
                x, y = s2, s1
            elif c1 == -1 and c2 == 1:
                x, y = s1, s2
            else:
                return
        else:
            return
        if not isinstance(e.k, int):
            return
        nodes.add(x)
        nodes.add(y)
        if d.get((x, y), e.k + 1) > e.k:
            d[(x, y)] = e.k
    for e in p.constraints():
        put(e)
    ns = list(nodes)
    for k in ns:
        ins = [(i, d[(i, k)]) for i in ns if (i, k) in d and i != k]
        outs = [(j, d[(k, j)]) for j in ns if (k, j) in d and j != k]
        for i, a in ins:
            for j, b in outs:
                if i == j:
                    continue
                o = d.get((i, j))
                if o is None or o > a + b:
                    d[(i, j)] = a + b
    return d


def _perm(s):
    return str(s).startswith("$")


def _reduce(cons):
    best = {}
    for e in cons:
        o = best.get(e.t)
        if o is None or e.k < o.k:
            best[e.t] = e
    return list(best.values())


def eliminate(cons, syms, cap=400):
    syms = set(syms)
    while syms:
        # pick cheapest
        cost = {}
        for s in syms:
            p = n = 0
            for e in cons:
                c = e.coef(s)
                if c > 0:
                    p += 1
                elif c < 0:
                    n += 1
            cost[s] = p * n - p - n
        s = min(sorted(syms, key=str), key=lambda x: cost[x])
        syms.discard(s)
        pos, neg, rest = [], [], []
        for e in cons:
            c = e.coef(s)
            (pos if c > 0 else neg if c < 0 else rest).append(e)
        for a in pos:
            ca = a.coef(s)
            for b in neg:
                cb = -b.coef(s)
                g = gcd(int(ca), int(cb))
                e = normge(a * (cb // g) + b * (ca // g))
                if not e.t:
                    if e.k < 0:
                        raise Bottom()
                    continue
                rest.append(e)
        cons = _reduce(rest)
        if len(cons) > cap:
            # drop the largest constraints: sound (over-approximation)
            cons.sort(key=lambda e: (len(e.t), abs(e.k)))
            cons = cons[:cap]
    return cons


def feasible(cons):
    cons = [normge(e) for e in cons]
    for e in cons:
        if not e.t and e.k < 0:
            return False
    cons = _reduce([e for e in cons if e.t])
    syms = set()
    for e in cons:
        for s, _ in e.t:
            syms.add(s)
    try:
        eliminate(cons, syms)
    except Bottom:
        return False
    return True


def affine_hull(a, b):
    """equalities implied by both solution spaces (Karr join)."""
    # candidate space: rows of a; find combinations entailed by b
    rows = [Lin.sym(s) - e for s, e in a.eq.items()]
    out = []
    # residual of each row under b
    res = []
    for r in rows:
        n = b.norm(r)
        if not n.t and n.k == 0:
            out.append(r)
        elif not n.t:
            res.append((r, n))
        elif b.entails_eq(r):
            out.append(r)
        else:
            res.append((r, n))
    # Gaussian elimination on residuals: combinations with zero residual
    # (residual vectors live in the space of symbols + constant)
    piv = []
    for r, n in res:
        for (ps, pr, pn) in piv:
            c = n.k if ps is None else n.coef(ps)
            if c:
                pc = pn.k if ps is None else pn.coef(ps)
                f = Fraction(c, 1) / pc
                n = n - pn * f
                r = r - pr * f
        n = Lin({s: _i(c) for s, c in n.t}, _i(n.k))
        r = Lin({s: _i(c) for s, c in r.t}, _i(r.k))
        if not n.t and n.k == 0:
            out.append(r)
        else:
            ps = n.t[0][0] if n.t else None
            piv.append((ps, r, n))
    return out


def _i(x):
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x
