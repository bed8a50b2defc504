"""Shared monitor base for opaque ranges, and the check runner."""
import json
from concurrent.futures import ThreadPoolExecutor
import os
import sys
import time
import traceback

import build
import models as M
import uses
from ai import (Interp, Monitor, Ptr, Lin, Fn, Agg, Cat, Tok, UNDEF, THROW, RInfo, PathEnd, AnalysisError,
                Bottom, ZERO, ONE)

VERIF = build.VERIF
ES = 8      # size of an opaque element


def custom(cls, lt=False, eq=False):
    """monitor factory: the entry passes its own comparator / equality"""
    def make():
        m = cls()
        m.custom_lt, m.custom_eq = lt, eq
        return m
    return make


def S(n):
    return Lin.sym(n)


class RangeMon(Monitor):
    """opaque input ranges A, B, ...: arrays of $N<name> elements"""
    ranges = ("A",)
    sorted = ()            # ranges whose keys ascend weakly
    strict = ()            # ranges whose keys ascend strictly
    min_len = 0
    custom_lt = False      # the caller passed a comparator
    custom_eq = False

    # -- set up
    def bind(self, I, s, f):
        """bind harness arguments by name: a/ae, b/be ..."""
        for r in self.ranges:
            n = S("$N" + r)
            s.poly.add_ge(n - self.min_len)
            s.rinfo[r] = RInfo(n * ES, "input", es=ES)
        for a in f.fn.args:
            v = self.arg(I, s, a["name"], a["ty"])
            f.regs[a["id"]] = v
        self.start(I, s)

    can_bound = True

    def bound(self, I, s, n):
        for r in self.ranges:
            if not I.assume_ge(s, Lin.c(max(n, self.min_len)) - S("$N" + r)):
                return False
        return True

    def arg(self, I, s, name, ty):
        for r in self.ranges:
            if name == r.lower():
                return Ptr(r)
            if name == r.lower() + "e":
                return Ptr(r, S("$N" + r) * ES)
        return I.fresh_ty(s, ty, 8)

    def start(self, I, s):
        pass

    # -- element helpers
    def elem(self, I, s, v, ins, what="operation on an element"):
        """(range, index) of an element reference; bounds obligation"""
        if not isinstance(v, Ptr) or v.r not in self.ranges:
            I.need(s, None, "element-identity", "%s: the argument is not an element of an input range (%s)" % (what, I.show(s, v)), ins, (v,))
        idx = s.poly.norm(v.o).divexact(ES)
        if idx is None:
            I.need(s, None, "element-identity", "%s: not an element boundary (%s)" % (what, I.show(s, v)), ins, (v,))
        ok = s.poly.entails_ge(idx) and s.poly.entails_ge(S("$N" + v.r) - idx - 1)
        I.need(s, True if ok else None, "in-range", "%s on %s[%s], outside the range" % (what, v.r, I.show(s, idx)), ins, (idx,))
        return v.r, idx

    def pos(self, I, s, v, ins, what="iterator"):
        if not isinstance(v, Ptr) or v.r not in self.ranges:
            I.need(s, None, "element-identity", "%s: not a position in an input range (%s)" % (what, I.show(s, v)), ins, (v,))
        idx = s.poly.norm(v.o).divexact(ES)
        if idx is None:
            I.need(s, None, "element-identity", "%s: not an element boundary" % what, ins, (v,))
        return v.r, idx

    def key(self, I, s, r, idx):
        """symbolic sort key of element idx of range r"""
        kr = ("keep", "K", r)
        cells = s.mem.setdefault(kr, {})
        idx = s.poly.norm(idx)
        if idx in cells:
            return cells[idx][1]
        for o, (_, v) in cells.items():
            if s.poly.entails_eq(o - idx):
                return v
        k = I.fresh("k")
        if r in self.sorted or r in self.strict:
            d = 1 if r in self.strict else 0
            for o, (_, v) in list(cells.items()):
                if s.poly.entails_ge(idx - o - 1):
                    s.poly.add_ge(k - v - d)
                elif s.poly.entails_ge(o - idx - 1):
                    s.poly.add_ge(v - k - d)
        cells[idx] = (1, k)
        return k

    def aligned(self, I, s, r, g):
        """which live cursors of range r coincide with the ghost cursor"""
        out = []
        for k, v in sorted(s.top.regs.items(), key=lambda x: str(x[0])):
            if isinstance(v, Ptr) and v.r == r:
                out.append(s.poly.entails_eq(v.o - g * ES))
        return tuple(out)

    def refine_order(self, I, s):
        """sorted axiom, read backwards: key i < key j implies i < j"""
        for r in tuple(self.sorted) + tuple(self.strict):
            c = list(s.mem.get(("keep", "K", r), {}).items())
            for n, (i, (_, k)) in enumerate(c):
                for m, (j, (_, l)) in enumerate(c):
                    if n != m and not s.poly.entails_ge(j - i - 1) and s.poly.entails_ge(l - k - 1):
                        s.poly.add_ge(j - i - 1)

    def less(self, I, s, x, y):
        """[(state, bool)] key(x) < key(y)"""
        return I.split_ge(s, self.key(I, s, *y) - self.key(I, s, *x) - 1)

    def call(self, I, s, ins, name, dem, args):
        if name in ("op_nlt", "op_neq"):
            bad = self.custom_lt if name == "op_nlt" else self.custom_eq
            I.need(s, not bad or None, "wrong-order", "elements are compared with their own operator although the caller passed a %s" % ("comparator" if name == "op_nlt" else "predicate"), ins)
            name = "op_lt" if name == "op_nlt" else "op_eq"
        if name == "op_lt":
            x = self.elem(I, s, args[0], ins, "comparator called")
            y = self.elem(I, s, args[1], ins, "comparator called")
            return [(t, Lin.c(1 if r else 0)) for t, r in self.less(I, s, x, y)]
        if name == "op_eq":
            x = self.elem(I, s, args[0], ins, "equality called")
            y = self.elem(I, s, args[1], ins, "equality called")
            out = []
            for t, r in I.split_eq(s, self.key(I, s, *x) - self.key(I, s, *y)):
                out.append((t, Lin.c(1 if r else 0)))
            return out
        if name == "op_pred":
            x = self.elem(I, s, args[0], ins, "predicate called")
            out = []
            for t, r in self.fact(I, s, "pred", x):
                out.append((t, Lin.c(1 if r else 0)))
            return out
        h = getattr(self, "c_" + name, None)
        if h is not None:
            r = h(I, s, ins, args)
            if r is None:
                return [(s, None)]
            return r
        return None

    def fact(self, I, s, name, x):
        return I.split_fact(s, name, (Ptr(x[0], s.poly.norm(x[1])),))

    def known(self, I, s, name, x):
        return I.get_fact(s, name, (Ptr(x[0], s.poly.norm(x[1])),))

    def on_access(self, I, s, ins, ptr, size, write):
        if ptr.r in self.ranges:
            if write:
                I.fail(s, "input-mutated", "an element of input range %s is written" % ptr.r, ins)

    def lengths(self, I, s, r):
        """[(state, n)]: the length of range r made concrete (bounded slices only)"""
        out = []
        for n in range(0, 20):
            t = s.copy()
            if I.assume_eq(t, S("$N" + r) - n):
                out.append((t, n))
        return out

    def settle(self, I, s):
        pass

    def head(self, I, s):
        self.settle(I, s)

    def mode(self, I, s):
        return ()


class Result:
    def __init__(self):
        self.entries = []
        self.violations = []
        self.unproved = []
        self.obl = self.dis = 0
        self.sites = set()
        self.havoc = {}


# a value of a shape the rules do not know: that entry counts as not decided
INTERNAL = () if os.environ.get("VERIF_DEBUG") else (AttributeError, TypeError, KeyError, IndexError, ValueError)


def internal(e):
    f = traceback.extract_tb(e.__traceback__)[-1]
    return "internal: %s: %s (%s:%d)" % (type(e).__name__, e, os.path.basename(f.filename), f.lineno)


class Check:
    """One property: a list of analyses; prints verdicts, writes evidence."""

    def __init__(self, pid, rule, level="proof"):
        self.pid = pid
        self.rule = rule
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.deadline = self.t0 + (450 if self.tier == "quick" else 700)
        self.res = Result()
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.min_sites = 1
        self.notes = []
        self.known = load_known(pid)
        self.known_hit = []
        self.mods = {}
        self.broken = []      # harnesses that do not compile

    def module(self, src, keep="keep.txt", extra=()):
        k = (src, keep, tuple(extra))
        if k not in self.mods:
            try:
                self.mods[k] = build.module(os.path.join(VERIF, "harness", src), keep, extra)
            except build.BuildError as e:
                self.mods[k] = None
                self.broken.append(str(e))
        return self.mods[k]

    def analyse(self, mod, entry, mon_factory, models=(M.runtime,), unroll=3, prepare=None, budget=120, confirm_s=60, confirm=None, label=None, **kw):
        """fixpoint; undischarged obligations are confirmed without joins"""
        label = label or entry
        if mod is None:
            self.res.entries.append(dict(entry=label, proved=False, unproved=["the harness does not compile"]))
            self.res.unproved.append(label)
            return None
        if entry in mod.dropped:
            self.res.entries.append(dict(entry=label, proved=False, unproved=["this use of the code does not compile"]))
            self.res.unproved.append(label)
            return None
        mon = mon_factory()
        I = Interp(mod, mon, models, mode="fix", budget_s=max(5, min(budget, self.deadline - time.time())), **kw)
        mon.I = I
        err = None
        try:
            I.run(entry, prepare or mon.bind)
        except AnalysisError as e:
            if "not found" in str(e):
                raise
            err = str(e)
        except INTERNAL as e:
            err = internal(e)
        fn = mod.funcs[entry].prep()
        rec = dict(entry=label, blocks=len(fn.reach), visited=len([1 for (f, b) in I.visited if f == entry]),
                   obligations=I.obl, discharged=I.dis, sites=len(I.oblsites), loop_states=len(I.heads), steps=I.steps,
                   proved=False, unmodelled=dict(I.havoc))
        self.res.obl += I.obl
        self.res.dis += I.dis
        self.res.sites |= set((label,) + x for x in I.oblsites)
        for k, v in I.havoc.items():
            self.res.havoc[k] = self.res.havoc.get(k, 0) + v
        if not I.violations and not I.unproved and not I.truncated and err is None:
            rec["proved"] = True
            if I.paths_done == 0 and not getattr(mon, "may_not_return", False):
                raise AnalysisError("%s: no path reaches an exit (vacuous)" % label)
        else:
            # confirm without joins, over slices of growing input size
            best = []
            un = list(I.unproved) + list(I.violations)
            ks = list(range(0 if mon.can_bound else 1, unroll + 2))
            cut = 0
            for k in ks[:3] + [None] + ks[3:] + [7, 11, 19] if mon.can_bound else ks:
                free = k is None                    # any input size, few iterations
                k = 2 if free else k
                left = self.deadline - time.time()
                if left < 5 or (self.res.violations and k > 2):
                    break
                if free or cut or k not in ks:
                    left = min(left, 15)       # thresholds on the input size
                mon2 = (confirm or mon_factory)()
                su = getattr(mon2, "slice_unroll", 4 * k + 8)
                J = Interp(mod, mon2, models, mode="unroll", unroll=(su(k) if callable(su) else su) if mon.can_bound else k, budget_s=min(left, confirm_s), **kw)
                if mon.can_bound and not free:
                    J.slice = k
                mon2.I = J
                try:
                    J.run(entry, prepare or mon2.bind)
                except AnalysisError as e:
                    err = str(e)
                except INTERNAL as e:
                    err = internal(e)
                best = J.violations
                un += J.unproved
                if best:
                    break
                if J.truncated and not free:
                    if cut or k not in ks:
                        break
                    cut = 1
            seen = {}
            for v in best:
                seen.setdefault(v.key(), v)
            for v in seen.values():
                self.violation(label, v.rule, v.msg, v.loc, v.trace)
            if not best:
                u = {}
                for v in un:
                    u.setdefault(v.key(), v)
                rec["unproved"] = ["%s: %s at %s" % (v.rule, v.msg, v.loc_str()) for v in list(u.values())[:8]]
                if err:
                    rec["unproved"].append(err)
                if I.truncated:
                    rec["unproved"].append("budget exhausted")
                self.res.unproved.append(label)
        self.res.entries.append(rec)
        if len(self.samples) < 4:
            for x in sorted(I.oblsites, key=str)[:2]:
                self.samples.append("%s: %s at %s" % (label, x[0], " < ".join("%s:%s" % (os.path.basename(l[0]), l[1]) for l in x[1])))
        return I

    def par(self, jobs, width=8):
        """jobs: thunks adding results to self; run in forked children"""
        import pickle
        import select
        jobs = list(jobs)
        if len(jobs) < 2 or os.environ.get("VERIF_SERIAL"):
            for j in jobs:
                j()
            return
        out = [None] * len(jobs)
        run = {}
        todo = list(range(len(jobs)))
        sys.stdout.flush()
        while todo or run:
            while todo and len(run) < width:
                n = todo.pop(0)
                r, w = os.pipe()
                pid = os.fork()
                if pid == 0:
                    os.close(r)
                    self.res = Result()
                    self.samples = []
                    try:
                        jobs[n]()
                        m = ("ok", self.res, self.samples, self.broken, self.extra)
                    except (AnalysisError, build.BuildError) as e:
                        m = ("err", str(e))
                    except BaseException:
                        m = ("crash", traceback.format_exc())
                    with os.fdopen(w, "wb") as f:
                        pickle.dump(m, f)
                    os._exit(0)
                os.close(w)
                run[r] = (n, pid, b"")
            rd, _, _ = select.select(list(run), [], [])
            for r in rd:
                n, pid, buf = run[r]
                d = os.read(r, 1 << 20)
                if d:
                    run[r] = (n, pid, buf + d)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del run[r]
                out[n] = pickle.loads(buf) if buf else ("crash", "analysis process died")
        for m in out:
            if m[0] == "err":
                raise AnalysisError(m[1])
            if m[0] == "crash":
                raise RuntimeError(m[1])
        for _, res, sam, broken, extra in out:
            r = self.res
            r.entries += res.entries
            r.violations += res.violations
            r.unproved += res.unproved
            r.obl += res.obl
            r.dis += res.dis
            r.sites |= res.sites
            for k, v in res.havoc.items():
                r.havoc[k] = r.havoc.get(k, 0) + v
            self.samples = (self.samples + sam)[:4]
            for b in broken:
                if b not in self.broken:
                    self.broken.append(b)

    def violation(self, label, rule, msg, loc, trace=(), ident=None):
        where = "?"
        if loc:
            where = " < ".join("%s:%s(%s)" % (l[0], l[1], l[2]) for l in loc[:5])
        v = dict(entry=label, rule=rule, msg=msg, where=where, trace=[str(t) for t in trace][-20:],
                 ident=ident or "%s/%s" % (label, rule))
        self.res.violations.append(v)

    def obligation(self, ok, label, rule, msg, where="", ident=None):
        """a directly decided obligation (type-level / structural checks)"""
        self.res.obl += 1
        self.res.sites.add((label, rule, where))
        if len(self.samples) < 4:
            self.samples.append("%s: %s %s" % (label, rule, where))
        if ok:
            self.res.dis += 1
        else:
            self.res.violations.append(dict(entry=label, rule=rule, msg=msg, where=where, trace=[], ident=ident or "%s/%s" % (label, rule)))
        return ok

    def endless(self, mod, label):
        """no function calls itself before anything can decide against it (calls in entry blocks only)"""
        if mod is None:
            return
        first = {}
        for f in mod.funcs.values():
            if not f.decl and f.blocks:
                first[f.name] = [i["callee"] for i in f.blocks[0] if i["op"] in ("call", "invoke") and "callee" in i]
        done = {}
        bad = []

        def walk(n, path):
            done[n] = 1
            for m in first.get(n, ()):
                if done.get(m) == 1:
                    bad.append(path[path.index(m):] if m in path else [m])
                elif m not in done and m in first:
                    walk(m, path + [m])
            done[n] = 2
        for n in first:
            if n not in done:
                walk(n, [n])
        for c in bad:
            self.obligation(False, label, "endless", "these functions call each other without end: " + " -> ".join(mod.dem(x) for x in c)[:600],
                            "%s:%s" % (mod.funcs[c[0]].file, mod.funcs[c[0]].line), ident="endless/%s" % c[0])
        self.res.entries.append(dict(entry=label, proved=not bad, obligations=len(first), discharged=len(first) - len(bad), sites=len(first)))
        for n in first:
            self.res.obl += 1
            self.res.dis += 1
            self.res.sites.add((label, "endless", n))

    def static_asserts(self, label, prelude, asserts, extra=(), each=False):
        """asserts: [(rule, constant expression, what it means)] decided by the type checker; each: one the type checker rejects counts as false"""
        src = prelude + "\n" + "\n".join('static_assert(%s, "OBL%d");' % (e, i) for i, (_, e, _) in enumerate(asserts)) + "\n"
        ok, err = build.syntax(src, extra)
        bad = {}
        other = []
        for l in err.splitlines():
            if "error:" in l:
                k = l.find("OBL")
                if "static assertion failed" in l and k >= 0:
                    bad[int("".join(x for x in l[k + 3:k + 7] if x.isdigit()))] = l
                else:
                    other.append(l)
        if other and each and build.syntax(prelude, extra)[0]:
            other = []
            with ThreadPoolExecutor(8) as ex:
                for i, (ok, err) in enumerate(ex.map(lambda a: build.syntax(prelude + "\nstatic_assert(%s);\n" % a[1], extra), asserts)):
                    if not ok:
                        bad[i] = next((l for l in err.splitlines() if "error:" in l), "")
        if other:
            self.res.entries.append(dict(entry=label, proved=False, unproved=["does not compile: " + other[0][:300]]))
            self.res.unproved.append(label)
            return
        self.res.entries.append(dict(entry=label, proved=not bad, obligations=len(asserts), discharged=len(asserts) - len(bad), sites=len(asserts)))
        for i, (rule, e, what) in enumerate(asserts):
            self.obligation(i not in bad, label, rule, what + ": " + e, "%s(type-level)" % label, ident="%s/%s" % (label, rule))

    def compiles(self, label, rule, prelude, uses, extra=()):
        """compile witnesses: each statement of uses = [(statement, what)] is accepted by the type checker"""
        ok, err = build.syntax(prelude, extra)
        if not ok:
            self.res.entries.append(dict(entry=label, proved=False, unproved=["does not compile: " + err[:300]]))
            self.res.unproved.append(label)
            return
        good = 0
        whole, _ = build.syntax(prelude + "\nvoid use_it() {\n%s\n}\n" % "\n".join("{ %s }" % st for st, _ in uses), extra)
        for st, what in uses:
            ok, err = (True, "") if whole else build.syntax(prelude + "\nvoid use_it() {\n%s\n}\n" % st, extra)
            if not ok:      # a use that only one of the compilers rejects is its limitation
                ok = build.syntax(prelude + "\nvoid use_it() {\n%s\n}\n" % st, extra, compiler="g++")[0]
            good += ok
            first = next((l for l in err.splitlines() if "error:" in l), "")
            self.obligation(ok, label, rule, "%s: %s does not compile: %s" % (what, st, first[:200]), "%s(type-level)" % label, ident="%s/%s/%s" % (label, rule, what))
        self.res.entries.append(dict(entry=label, proved=good == len(uses), obligations=len(uses), discharged=good, sites=len(uses)))

    def finish(self):
        if self.pid in uses.USES and not os.environ.get("ONLY"):
            self.compiles("std_uses", "usable", *uses.USES[self.pid])
        r = self.res
        out = []
        real = []
        for v in r.violations:
            k = next((k for k in self.known if k["ident"] == v["ident"]), None)
            if k is not None:
                self.known_hit.append(k)
            else:
                real.append(v)
        printed = set()
        for k in self.known_hit:
            if k["ident"] in printed:
                continue
            printed.add(k["ident"])
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        if len(r.sites) < self.min_sites and not real and not self.broken and not r.unproved:
            raise AnalysisError("only %d obligation sites analysed (expected at least %d): anchor vanished" % (len(r.sites), self.min_sites))
        if self.broken and not real:
            raise build.BuildError(self.broken[0])
        rdir = os.environ.get("VERIF_REPLAY", os.path.join(build.BUILD, "replay"))
        for n, v in enumerate(real):
            os.makedirs(rdir, exist_ok=True)
            p = os.path.join(rdir, "%s-%d.txt" % (self.pid, n))
            with open(p, "w") as f:
                f.write("property %s\nentry %s\nrule %s\n%s\nat %s\ntrace:\n" % (self.pid, v["entry"], v["rule"], v["msg"], v["where"]))
                for t in v["trace"]:
                    f.write("  %s\n" % t)
            if n < 8:
                print("VIOLATION property=%s replay=%s" % (self.pid, p))
                print("  rule=%s entry=%s\n  %s\n  at %s" % (v["rule"], v["entry"], v["msg"], v["where"]))
        proved = not r.unproved
        cov = dict(
            obligations=r.obl, discharged=r.dis,
            checker_cmd="python3 /verif/checks/%s.py" % self.pid.lower(),
            trusted_base=["clang 18 front end and the LLVM inliner/SROA/simplifycfg passes", "/verif/engine (abstract interpreter)",
                          "library models in /verif/engine/models.py", "harness in /verif/harness"],
            rule=self.rule, obligation_sites=len(r.sites), entries=r.entries, samples=self.samples[:4] or ["none"],
            unproved_entries=r.unproved, unmodelled_calls=r.havoc, known_findings=[k["what"] for k in self.known_hit])
        cov.update(self.extra)
        if self.level == "other":
            cov["explanation"] = self.rule
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(real))
        edir = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s: %d entries, %d obligations (%d discharged) at %d sites, %d violation(s)%s, %.1fs" % (
            self.pid, len(r.entries), r.obl, r.dis, len(r.sites), len(real),
            "" if proved else ", UNPROVED: " + ", ".join(r.unproved), time.time() - self.t0))
        if not proved:
            for e in r.entries:
                for u in e.get("unproved", [])[:int(os.environ.get("UNPROVED", "1"))]:
                    print("  unproved %s: %s" % (e["entry"], u[:400]))
        return 1 if real else 0


def load_known(pid):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l[len("finding: property=%s " % pid):]
                ident, _, what = rest.partition(" ")
                assert ident.startswith("id=")
                out.append(dict(ident=ident[3:], what=what))
    return out


def main(fn):
    """exit 0 / 1 (violation) / 3 (analysis broken)"""
    try:
        rc = fn()
    except (AnalysisError, build.BuildError) as e:
        print("ANALYSIS-BROKEN: %s" % e)
        rc = 3
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
