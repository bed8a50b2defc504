"""Loader for the JSON IR that irprep writes; CFG, liveness and loop heads."""
import json


class Func:
    def __init__(self, d):
        self.d = d
        self.name = d["name"]
        self.dem = d["dem"]
        self.decl = d["decl"]
        self.file = d.get("file")
        self.line = d.get("line")
        self.blocks = d.get("blocks", [])
        self.args = d.get("args", [])
        self._prep = False

    # ---- lazily computed CFG facts
    def prep(self):
        if self._prep:
            return self
        self._prep = True
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        self.pred = [[] for _ in range(n)]
        for b, ins in enumerate(self.blocks):
            if not ins:
                continue
            for s in succs(ins[-1]):
                if s not in self.succ[b]:
                    self.succ[b].append(s)
                    self.pred[s].append(b)
        self._heads()
        self._live()
        return self

    def _heads(self):
        # targets of retreating edges in a DFS
        self.heads = set()
        self.retreat = set()
        state = {}
        stack = [(0, iter(self.succ[0]))] if self.blocks else []
        state[0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if state.get(s, 0) == 0:
                    state[s] = 1
                    stack.append((s, iter(self.succ[s])))
                    break
                if state[s] == 1:
                    self.heads.add(s)
                    self.retreat.add((b, s))
            else:
                state[b] = 2
                stack.pop()
        self.reach = set(state)

    def _live(self):
        n = len(self.blocks)
        use = [set() for _ in range(n)]
        deff = [set() for _ in range(n)]
        phiuse = {}   # (pred, block) -> regs
        for b, ins in enumerate(self.blocks):
            for i in ins:
                if i["op"] == "phi":
                    deff[b].add(i["id"])
                    for p, o in i["in"]:
                        for r in regs(o):
                            phiuse.setdefault((p, b), set()).add(r)
                    continue
                for o in operands(i):
                    for r in regs(o):
                        if r not in deff[b]:
                            use[b].add(r)
                deff[b].add(i["id"])
        self.livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for s in self.succ[b]:
                    out |= self.livein[s] - {i["id"] for i in self.blocks[s] if i["op"] == "phi"}
                    out |= phiuse.get((b, s), set())
                new = use[b] | (out - deff[b]) | {i["id"] for i in self.blocks[b] if i["op"] == "phi"}
                if new != self.livein[b]:
                    self.livein[b] = new
                    ch = True
        # livein includes the block's own phis: they are assigned on entry

    def live_after(self, b, idx):
        """registers live just after instruction idx of block b"""
        live = set()
        for s in self.succ[b]:
            live |= self.livein[s]
            for i in self.blocks[s]:
                if i["op"] == "phi":
                    for p, o in i["in"]:
                        if p == b:
                            live |= set(regs(o))
        for i in reversed(self.blocks[b][idx + 1:]):
            live.discard(i["id"])
            for o in operands(i):
                live |= set(regs(o))
        return live


def succs(t):
    op = t["op"]
    if op == "br":
        return t["succ"]
    if op == "switch":
        return [t["def"]] + [c[1] for c in t["cases"]]
    if op == "invoke":
        return [t["norm"], t["unw"]]
    return []


def operands(i):
    for k in ("ops", "args"):
        for o in i.get(k, ()):
            yield o
    for k in ("c", "base", "fn"):
        if k in i:
            yield i[k]
    for o, _ in i.get("idx", ()):
        yield o


def regs(o):
    k = o.get("k")
    if k == "r":
        return [o["id"]]
    out = []
    for x in o.get("ops", ()):
        out += regs(x)
    if "base" in o:
        out += regs(o["base"])
    return out


class Module:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = {f["name"]: Func(f) for f in d["functions"]}
        self.globals = {g["name"]: g for g in d["globals"]}

    def dem(self, name):
        f = self.funcs.get(name)
        return f.dem if f else name

    def flat(self, gname):
        """{offset: (size, operand)} leaves of a constant initialiser"""
        g = self.globals.get(gname)
        if g is None:
            return {}
        if "_flat" in g:
            return g["_flat"]
        out = {}
        lay = g.get("lay", [])
        init = g.get("init")
        if init is not None:
            leaves = []

            def walk(o, depth=0):
                if o.get("k") == "agg":
                    for x in o["ops"]:
                        walk(x, depth + 1)
                else:
                    leaves.append(o)
            walk(init)
            if init.get("k") == "zero" or (len(leaves) == 1 and leaves[0].get("k") == "zero"):
                for off, sz, ty in lay:
                    out[off] = (sz, {"k": "null"} if ty == "ptr" else {"k": "i", "v": 0, "w": sz * 8})
            elif len(leaves) == len(lay):
                for (off, sz, ty), o in zip(lay, leaves):
                    out[off] = (sz, o)
        g["_flat"] = out
        return out
