"""Interprocedural effect summaries: which memory, named from the arguments and globals, a function (and all it calls) writes or reads."""
import ir
from ir import I, add, root, show

Q = ("?",)
STRWRITE = ("append", "operator=", "operator+=", "assign", "push_back", "clear", "resize", "insert", "erase", "replace", "swap")


class Lazy(list):
    """argument values, computed when they are asked for"""

    def __init__(self, ex, g, args): super().__init__(args); self.ex = ex; self.g = g

    def __getitem__(self, k): return self.ex.val(self.g, super().__getitem__(k))


class Effects:
    """summary of f: {path: (where, chain)}; a path is an address expression over ("arg", k) and ("g", name) in which what cannot be named is ("?",)"""

    def __init__(self, p, ex, reads=False, opaque=()):
        self.p = p; self.ex = ex; self.reads = reads; self.memo = {}; self.busy = set(); self.opaque = set(opaque); self.visited = set(); self.sites = 0; self.omemo = {}; self.stores = {}

    # -------------------------------------------------------------- expressions
    def canon(self, e):
        """index parts that cannot be named become ?"""
        if not isinstance(e, tuple) or not e: return e
        k = e[0]
        if k in ("i", "arg", "g", "k", "T", "F") or e == Q: return e
        if k in ("v", "loc", "new", "undef", "fresh"): return Q
        if k == "lin":
            acc = I(e[1]); q = False
            for t, c in e[2]:
                t = self.canon(t)
                if t == Q or self.hasq(t): q = True
                else: acc = add(acc, ir.mul(I(c), t))
            return Q if q else acc
        if k in ("mul", "div", "rem", "lshr", "shl", "and", "or", "xor", "cast", "min", "max", "sel", "cmp", "not", "c", "m"):
            r = tuple(self.canon(x) if isinstance(x, tuple) else x for x in e)
            return Q if self.hasq(r) else r
        if k == "el":
            b = self.canon(e[1]); i = self.canon(e[2]) if e[2] and isinstance(e[2][0], str) else Q
            if b[0] == "el": return ("el", b[1], add(b[2], i) if not (b[2] == Q or i == Q) else Q)
            return ("el", b, i)
        return tuple(self.canon(x) if isinstance(x, tuple) else x for x in e)

    def hasq(self, e):
        return e == Q or isinstance(e, tuple) and any(self.hasq(x) for x in e if isinstance(x, tuple))

    def objects(self, f, e, depth=0, seen=()):
        key = (f.name, e)
        if not seen and key in self.omemo: return self.omemo[key]
        r = list(dict.fromkeys(self._objects(f, e, depth, seen)))[:8]
        if not seen: self.omemo[key] = r
        return r

    def _objects(self, f, e, depth, seen):
        """the address expression(s) e stands for, with phis, selects and locally stored pointers followed"""
        r = e; stack = []
        while r[0] in ("fld", "off", "el", "up", "ld", "size"):
            stack.append(r); r = r[1]
        if r[0] in ("arg", "g"): return [e]
        if depth > 5 or e in seen: return []
        if r[0] == "loc" and r[1] == f.name:
            # a local object: only what is reached through a pointer kept in it matters
            j = next((j for j in range(len(stack) - 1, -1, -1) if stack[j][0] in ("ld", "up")), None)
            if j is None: return []
            addr = stack[j][1] if stack[j][0] == "ld" else None
            out = []
            if f.name not in self.stores:
                self.stores[f.name] = m = {}
                for s in f.insts:
                    if s.op == "store" and s.raw[3] == "ptr": m.setdefault(self.ex.val(f, s.raw[5]), []).append(s)
            for s in self.stores[f.name].get(addr, ())[:4]:
                for v in self.objects(f, self.ex.val(f, s.raw[4]), depth + 1, seen + (e,)):
                    x = v
                    for t in reversed(stack[:j]): x = (t[0], x) + t[2:]
                    out.append(x)
            return out
        if r[0] in ("v", "sel"):
            vals = []
            if r[0] == "sel": vals = [r[2], r[3]]
            elif r[1] == f.name:
                i = f.defs.get(r[2])
                if i is None or i.id in seen: return []
                seen = seen + (i.id,)
                if i.op == "phi": vals = [self.ex.val(f, v) for v, _ in i.raw[4]]
                elif i.op == "select": vals = [self.ex.val(f, v) for v in i.raw[5:7]]
                elif i.op == "gep": vals = [self.ex.val(f, i.raw[4])]
                elif i.is_call and i.args:
                    ts = self.p.callees(i) or []
                    if any(x.startswith(("_Zn", "malloc")) for x in ts): return []
                    vals = [("el", self.ex.val(f, i.args[0]), Q)]       # an iterator or reference into its first argument
            out = []
            for v in vals:
                for o in self.objects(f, v, depth + 1, seen):
                    x = ("el", o, Q) if r[0] == "v" and o[0] != "el" else o
                    if r[0] == "v" and x[0] == "el": x = ("el", x[1], Q)
                    for t in reversed(stack): x = (t[0], x) + t[2:]
                    out.append(x)
            return out
        return []

    # -------------------------------------------------------------- summaries
    def of(self, g):
        if g.name in self.memo: return self.memo[g.name]
        if g.name in self.busy: return {}
        self.busy.add(g.name); self.visited.add(g.name)
        out = {}
        for i in g.insts: self.inst(g, i, out)
        self.busy.discard(g.name)
        if not self.busy or True: self.memo[g.name] = out
        return out

    def note(self, g, kind, e, i, out, chain=()):
        for o in self.objects(g, e):
            o = self.canon(o)
            if root(o)[0] not in ("arg", "g"): continue
            out.setdefault((kind, o), (i.where, chain))

    def inst(self, g, i, out):
        if i.op == "store": self.note(g, "w", self.ex.val(g, i.raw[5]), i, out)
        elif i.op == "load":
            if self.reads: self.note(g, "r", self.ex.val(g, i.raw[4]), i, out)
        elif i.is_call:
            for e in self.called(g, i): out.setdefault(e[0], e[1])

    def called(self, g, i):
        """[(kind, path), (where, chain)] of one call, in terms of g's arguments"""
        out = {}
        ts = self.p.callees(i) or []
        vals = None
        for t in ts:
            h = self.p.funcs.get(t)
            if h is None:
                if t.startswith(("llvm.memcpy", "llvm.memset", "llvm.memmove", "llvm.masked.store")) or t in ("memcpy", "memset", "memmove"):
                    k = 0 if not t.startswith("llvm.masked") else 1
                    self.note(g, "w", ("el", self.ex.val(g, i.args[k]), Q), i, out)
                    if self.reads and "set" not in t and len(i.args) > 1: self.note(g, "r", ("el", self.ex.val(g, i.args[1]), Q), i, out)
                elif "basic_string" in t and t.startswith("_ZNS") and i.args and ("C1" not in t and "D1" not in t):
                    self.note(g, "w", self.ex.val(g, i.args[0]), i, out)
                continue
            if t in self.opaque: continue
            self.sites += 1
            s = self.of(h)
            if not s: continue
            if vals is None: vals = Lazy(self.ex, g, i.args)
            for (kind, e), (w, ch) in s.items():
                a = self.ex.substitute(e, vals)
                if root(a)[0] in ("loc", "new") and not ir.mentions(a, lambda x: x[0] in ("ld", "up")): continue
                for o in self.objects(g, a):
                    o = self.canon(o)
                    if root(o)[0] in ("arg", "g"): out.setdefault((kind, o), (w, ((h.short, i.where),) + ch[:6]))
        return out.items()
