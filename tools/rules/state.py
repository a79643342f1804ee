"""C16 initialising or resetting an object leaves nothing of its earlier use."""
import re
import ir, effects
from ir import I, show, root, mentions
from frontend import Broken

Q = ("?",)
BASES = {
    "CEX::Digest::IDigest": (("Update", "Finalize", "Compute"), ("Reset", "Finalize")),
    "CEX::Mac::IMac": (("Update", "Finalize", "Compute"), ("Initialize", "Reset")),
    "CEX::Kdf::IKdf": (("Generate",), ("Initialize", "Reset")),
    "CEX::Drbg::IDrbg": (("Generate", "Update"), ("Initialize",)),
    "CEX::Cipher::Block::Mode::ICipherMode": (("Transform", "EncryptBlock", "DecryptBlock", "Finalize", "SetAssociatedData"), ("Initialize",)),
    "CEX::Cipher::Block::Mode::IAeadMode": (("Transform", "EncryptBlock", "DecryptBlock", "Finalize", "SetAssociatedData"), ("Initialize",)),
    "CEX::Cipher::Block::IBlockCipher": (("Transform", "EncryptBlock", "DecryptBlock"), ("Initialize",)),
    "CEX::Cipher::Stream::IStreamCipher": (("Transform", "SetAssociatedData"), ("Initialize",)),
}
MUTATE = {"Update", "Finalize", "Compute", "Generate", "Transform", "SetAssociatedData", "EncryptBlock", "DecryptBlock", "Encrypt", "Decrypt"}
CLEAN = {"Initialize", "Reset", "Finalize", "Compute"}
ALL = "all"
TOP = None
SOURCES = ("CEX::Provider::IProvider", "CEX::Prng::IPrng")
MEMT = "CEX::Tools::MemoryTools"


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


def path(e):
    """(root, field steps, constant index or None or '?') of an address; None if it has no field path"""
    idx = None; steps = []
    while True:
        k = e[0]
        if k == "fld": steps.append(e[2]); e = e[1]
        elif k == "up": steps.append("->"); e = e[1]
        elif k == "ld": steps.append("->"); e = e[1]
        elif k == "el":
            if not steps: idx = e[2][1] if isinstance(e[2], tuple) and e[2] and e[2][0] == "i" else (e[2] if isinstance(e[2], tuple) and e[2] and isinstance(e[2][0], str) else Q)
            e = e[1]
        elif k == "off":
            if not steps: idx = Q
            e = e[1]
        elif k in ("arg", "g"): return (e, tuple(reversed(steps)), idx)
        else: return None


class May(effects.Effects):
    """what a function may write; calls through an interface with several classes behind it count for the object as a whole"""

    def called(self, g, i):
        ts = self.p.callees(i) or []
        if not isinstance(i.callee, str) and len({self.p.funcs[t].cls for t in ts if t in self.p.funcs}) > 1:
            nm = self.p.vname(i); out = {}
            cl = {self.p.funcs[t].cls for t in ts if t in self.p.funcs}
            if nm in MUTATE and not any(b in cl or any(c in self.p.subs.get(b, ()) for c in cl) for b in SOURCES) and any(r[1] == ("arg", 0) or root(r[1]) == ("arg", 0) for t in ts if t in self.p.funcs for r in self.of(self.p.funcs[t])):
                for o in self.objects(g, self.ex.val(g, i.args[0])):
                    o = self.canon(o)
                    if root(o)[0] in ("arg", "g"): out.setdefault(("w", ("fld", o, "*")), (i.where, ()))
            return out.items()
        out = super().called(g, i)
        h = self.p.funcs.get(ts[0]) if ts else None
        if h is not None and h.cls.startswith("std::vector") and h.base_nm in ("resize", "assign", "push_back", "insert", "operator=", "clear"):
            out = {}
            for o in self.objects(g, self.ex.val(g, i.args[0])):
                o = self.canon(o)
                if root(o)[0] in ("arg", "g"):
                    out.setdefault(("w", ("fld", o, "#")), (i.where, ()))
                    if h.base_nm != "resize": out.setdefault(("w", ("el", o, Q)), (i.where, ()))
            out = out.items()
        return out


class Must:
    """what a function writes on every normal path to its end, as {(root, steps): extents}, and what the written values are made of"""

    def __init__(self, ctx, may, fixed=None):
        """fixed: which conditions come out the same for the whole life of an object; both sides of a branch on one then count, as only one is ever in use"""
        self.ctx = ctx; self.p = ctx.p; self.ex = ctx.ex; self.may = may; self.memo = {}; self.busy = set(); self.fixed = fixed

    def of(self, g):
        if g.name in self.memo: return self.memo[g.name]
        if g.name in self.busy: return {}
        self.busy.add(g.name)
        r = self.memo[g.name] = self.flow(g)
        self.busy.discard(g.name)
        return r

    # facts: dict (root, steps) -> set of extents (ALL or constant index); TOP: dead or exempt
    @staticmethod
    def meet(a, b):
        if a is TOP: return b
        if b is TOP: return a
        out = {}
        for k in set(a) | set(b):
            x, y = a.get(k), b.get(k)
            if x is None or y is None:
                # written as a whole further up
                o = a if x is None else b
                if Must.prefix(o, k): out[k] = x or y
                continue
            s = x & y
            if ALL in x: s |= y
            if ALL in y: s |= x
            if s: out[k] = s
        return out

    @staticmethod
    def prefix(facts, k):
        r, s = k
        for n in range(len(s), -1, -1):
            if s[-1:] == ("#",) and n == len(s) - 1: continue
            if ALL in facts.get((r, s[:n]), ()) and (n == len(s) or s[n - 1:n] == ("->",) or True): return True
            if ALL in facts.get((r, s[:n] + ("*",)), ()): return True
        return False

    @staticmethod
    def join(a, b):
        if a is TOP or b is TOP: return TOP
        out = {k: set(v) for k, v in a.items()}
        for k, v in b.items(): out.setdefault(k, set()).update(v)
        return out

    def flow(self, f):
        order = self.rpo(f); loops = {l["h"]: l for l in f.loops}
        OUT = {}; res = TOP; live = set(order)
        for b in order:
            inn = {} if b == 0 else TOP
            ins = [(q, e) for q in f.preds[b] if not (b in loops and q in loops[b]["bl"]) and q in OUT for e in self.edge(f, q, b, OUT)]
            d = self.branch(f, b, order) if self.fixed and len(ins) > 1 else None
            if d is not None:
                parts = {}
                for q, e in ins:
                    k = next((x for x in f.succs(d) if x != b and self.dominates(f, x, q)), d)
                    parts[k] = self.meet(parts[k], e) if k in parts else e
                for e in parts.values(): inn = e if inn is TOP else inn if e is TOP else self.join(inn, e)
            else:
                for q, e in ins: inn = self.meet(inn, e)
            st = None if inn is TOP else {k: set(v) for k, v in inn.items()}
            if st is not None:
                for i in f.blocks[b]: self.inst(f, i, st)
            OUT[b] = st if b not in OUT else OUT[b]
            t = f.blocks[b][-1]
            if t.op == "ret" and st is not None: res = self.meet(res, st)
        return {} if res is TOP else res

    def edge(self, f, q, b, OUT):
        t = f.blocks[q][-1]
        if t.op == "invoke" and b == t.unwind: return
        o = OUT[q]
        # leaving a loop at its header: the body has run
        for l in f.loops:
            h = l["h"]
            if q in l["bl"] and b not in l["bl"] and o is not TOP and (q == h or h in OUT and OUT[h] == o):
                for z in f.preds[h]:
                    if z in l["bl"] and z in OUT and OUT[z] is not TOP: o = self.join(o, OUT[z])
        if t.op == "br" and t.raw[3] is not None and o is not TOP:
            c = self.ex.val(f, t.raw[3]); tr = b == t.raw[4][0]
            while c[0] == "not": c, tr = c[1], not tr
            if c[0] == "cmp" and c[1] in ("eq", "ne") and c[3] == I(0) and c[2][0] in ("ld", "fld", "up"):
                null = tr == (c[1] == "eq")
                if c[2][0] == "up":
                    if null:
                        k = path(c[2]); o = dict(o)
                        if k: o[k[:2]] = {ALL}
                elif null and self.flag(c[2]): return
            elif c[0] in ("ld", "c", "m") and not tr and self.flag(c): return
        yield o

    def branch(self, f, b, order):
        """the block that decides how b is reached, if it does so on something fixed"""
        ds = [x for x in order if x != b and self.dominates(f, x, b)]
        if not ds: return None
        d = max(ds, key=lambda x: sum(self.dominates(f, y, x) for y in ds)); t = f.blocks[d][-1]
        if t.op != "br" or t.raw[3] is None: return None
        return d if self.fixed(f, self.ex.val(f, t.raw[3])) else None

    def dominates(self, f, a, b):
        k = (f.name, "dom")
        if k not in self.memo: self.memo[k] = doms(f, self.rpo(f))
        return a in self.memo[k].get(b, ())

    def flag(self, e):
        """the initialised flag of the object itself"""
        if e[0] == "ld":
            k = path(e[1]); return bool(k) and "IsInitialized" in k[1][-1:] or bool(k) and any("nitialized" in s for s in k[1][-1:])
        if e[0] == "c":
            g = self.p.funcs.get(e[1]); return g is not None and g.base_nm == "IsInitialized" and e[2] and e[2][0] == ("arg", 0)
        if e[0] == "m": return e[1] == "IsInitialized" and e[2][0] == ("arg", 0)
        return False

    def rpo(self, f):
        def nxt(b):
            # what leaves a loop is visited after the loop
            ls = [l for l in f.loops if b in l["bl"]]
            return sorted(f.succs(b), key=lambda s: sum(s in l["bl"] for l in ls))
        seen = set(); out = []; st = [(0, iter(nxt(0)))]; seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen: seen.add(s); st.append((s, iter(nxt(s)))); break
            else: out.append(b); st.pop()
        return out[::-1]

    def one(self, f, e):
        o = self.may.objects(f, e)
        return o[0] if len(o) == 1 else None

    def put(self, st, f, i, e, ext):
        o = self.one(f, e)
        if o is None: return
        k = path(o)
        if k is None: return
        if ext is not None and k[2] is not None and k[2] != I(0):
            # part of an element that is an array itself
            if ext == ALL or self.filled(f, k, ext): ext = None
            else: return
        if ext is None:
            ix = k[2]
            if ix is None: ext = ALL
            elif isinstance(ix, int): ext = ix
            elif i.op == "store" and i.raw[3] == "i8" and not self.looping(f, i.bb, ix): ext = ("r", ix, I(1))
            elif self.looping(f, i.bb, ix): ext = ALL
            else: return
        st.setdefault(k[:2], set()).add(ext)

    def looping(self, f, bb, ix):
        ls = [l for l in f.loops if bb in l["bl"]]
        return bool(ls)

    def inst(self, f, i, st):
        if i.op == "store":
            d = self.ex.val(f, i.raw[5])
            if not self.keeps(f, st, d, i.raw[4]): self.put(st, f, i, d, None)
        elif i.is_call: self.callee(f, i, st)

    def keeps(self, f, st, d, v):
        """the value is made from what is in the place itself, which has not been written yet"""
        k = path(d)
        if k is None or self.prefix(st, k[:2]) or st.get(k[:2]): return False
        seen = set(); todo = [v]
        while todo and len(seen) < 60:
            x = todo.pop()
            if not isinstance(x, int) or x < f.nargs or x in seen: continue
            seen.add(x); j = f.defs[x]
            if j.op == "phi": continue
            if j.op == "load":
                z = path(self.ex.val(f, j.raw[4]))
                if z and z[:2] == k[:2]: return True
            elif not j.is_call: todo += ir.operands(j)
        return False

    def rng(self, st, f, i, e, off, ln):
        """off..off+ln bytes of the array e are written"""
        o = self.one(f, e)
        if o is None: return
        if off == I(0) and mentions(ln, lambda q: q[0] == "size" and q[1] in (e, o)) and ln[0] != "div" and (ln[0] != "lin" or ln[1] == 0 and len(ln[2]) == 1): self.put(st, f, i, e, ALL); return
        self.put(st, f, i, e, ("r", off, ln))

    def filled(self, f, k, ext):
        t = self.argtype(f, k[0][1]) if k[0][0] == "arg" else None
        t = steptype(self.p, t, k[1]) if t else None
        n = arraylen(inner(t)) if t else None
        return bool(n) and ext == ("r", I(0), I(n * WIDTH.get(inner(inner(t)), 0)))

    def argtype(self, f, n):
        off = f.nargs - len(f.sty[1:])
        if n < off: return f.cls
        return re.sub(r"^const ", "", f.sty[1 + n - off].rstrip("& *"))

    def callee(self, f, i, st):
        ts = self.p.callees(i) or []
        if not ts: return
        g = self.p.funcs.get(ts[0]); a = effects.Lazy(self.ex, f, i.args)
        if not isinstance(i.callee, str) and len({self.p.funcs[t].cls for t in ts if t in self.p.funcs}) > 1:
            if self.p.vname(i) in CLEAN: self.put(st, f, i, ("fld", a[0], "*"), ALL)
            return
        if g is None:
            if ts[0].startswith(("llvm.memset", "llvm.memcpy", "llvm.memmove")) or ts[0] in ("memset", "memcpy", "memmove"):
                d = a[0]; off = I(0)
                if d[0] == "el" and d[2] == I(0): d = d[1]
                self.rng(st, f, i, d, off, a[2])
            return
        nm = g.base_nm; c = g.cls
        if c.startswith("std::unique_ptr") and nm in ("reset", "operator="): self.put(st, f, i, ("up", a[0]), ALL); self.put(st, f, i, a[0], ALL); return
        if c.startswith("std::vector") and nm in ("operator=", "assign", "clear", "swap"):
            self.put(st, f, i, a[0], ALL); self.put(st, f, i, ("fld", a[0], "#"), ALL)
            if nm == "swap" and len(i.args) > 1 and a[0][0] == "loc": self.put(st, f, i, a[1], ALL); self.put(st, f, i, ("fld", a[1], "#"), ALL)
            return
        if c.startswith("std::vector") and nm == "resize": self.put(st, f, i, ("fld", a[0], "#"), ALL); return
        if c.startswith("std::array") and nm in ("operator=", "fill", "swap"): self.put(st, f, i, a[0], ALL); return
        if c == MEMT and nm in ("Clear", "SetValue") and len(i.args) >= 3: self.rng(st, f, i, a[0], a[1], a[2]); return
        m = re.match(r"COPY(\d+)$", nm)
        if c == MEMT and m and len(i.args) == 4: self.rng(st, f, i, a[2], a[3], I(int(m.group(1)) // 8)); return
        if (c == MEMT or not c) and nm in ("Copy", "Move", "SecureCopy", "SecureMove") and len(i.args) == 5: self.rng(st, f, i, a[2], a[3], a[4]); return
        if c == "std" and nm in ("fill", "fill_n", "copy", "copy_n", "move"):
            d = a[{"copy": 2, "copy_n": 2, "move": 2}.get(nm, 0)] if len(i.args) > 2 else ("?",)
            if d[0] == "el" and d[2] == I(0):
                if nm in ("copy_n", "fill_n"):
                    w = WIDTH.get(inner(steptype(self.p, self.argtype(f, path(d[1])[0][1]), path(d[1])[1]) or ""), 1) if path(d[1]) and path(d[1])[0][0] == "arg" else 1
                    self.rng(st, f, i, d[1], I(0), ir.mul(a[1], I(w)))
                elif self.ends(f, i.args[1], None if nm != "fill" else d[1]): self.put(st, f, i, d[1], ALL)
            return
        if c.startswith("std::"): return
        # a summary of the function in terms of its arguments
        s = self.of(g)
        for (r, steps), ext in s.items():
            if r[0] == "g": continue
            if r[1] >= len(a): continue
            o = self.one(f, a[r[1]])
            if o is None: continue
            k = path(o)
            if k is None: continue
            if k[2] is not None and not (isinstance(k[2], int) or self.looping(f, i.bb, k[2])): continue
            if k[2] is not None and not steps: ext = {ALL if self.looping(f, i.bb, k[2]) and not isinstance(k[2], int) else k[2]} if self.element(f, o, ext) else ()
            ext = {("r", self.ex.substitute(x[1], a), self.ex.substitute(x[2], a)) if x != ALL and not isinstance(x, int) else x for x in ext}
            st.setdefault((k[0], k[1] + steps), set()).update(ext)

    def ends(self, f, v, o):
        """the iterator is the end of the container o, or of any"""
        j = f.defs.get(v) if isinstance(v, int) else None; n = 0
        while j is not None and n < 6:
            n += 1
            if j.is_call:
                g = self.p.funcs.get((self.p.callees(j) or [""])[0])
                return g is not None and g.base_nm in ("end", "cend") and (o is None or self.ex.val(f, j.args[0]) == o)
            if j.op == "load":
                # stored in a local first
                src = [i for i in f.insts if i.op == "store" and i.raw[5] == j.raw[4]]
                v = src[0].raw[4] if len(src) == 1 else None
            elif j.op in ("cast", "gep", "extractvalue"): v = ir.operands(j)[0]
            else: return False
            j = f.defs.get(v) if isinstance(v, int) else None
        return False

    def element(self, f, o, ext):
        return ALL in ext


def doms(f, order):
    D = {0: {0}}
    ch = True
    while ch:
        ch = False
        for b in order:
            if b == 0: continue
            ps = [D[q] for q in f.preds[b] if q in D]
            if not ps: continue
            n = set.intersection(*ps) | {b}
            if D.get(b) != n: D[b] = n; ch = True
    return D


# ---------------------------------------------------------------- types of field paths
def inner(t):
    """element type of a container or pointer type"""
    m = re.match(r"(?:const )?std::(?:vector|array|unique_ptr)<", t)
    if not m: return t.rstrip("* ")
    d = 0; j = m.end()
    for j in range(m.end(), len(t)):
        if t[j] == "<": d += 1
        elif t[j] == ">":
            if d == 0: break
            d -= 1
        elif t[j] == "," and d == 0: break
    return t[m.end():j].strip()


def steptype(p, cls, steps):
    t = cls
    for s in steps:
        if s == "->": t = inner(t); continue
        if s == "*": return t
        while t.startswith("std::vector<") or t.startswith("std::array<"): t = inner(t)
        st = [t]; r = None
        while st and r is None:
            x = st.pop()
            for m in p.tfields(x):
                if m[1] == s: r = m[2]
            st += p.bases(x)
        if r is None: return None
        t = r
    return t


def arraylen(t):
    m = re.match(r"std::array<(.*), (\d+)U?L*>$", t or "")
    return int(m.group(2)) if m else None


WIDTH = {"unsigned char": 1, "unsigned short": 2, "unsigned int": 4, "unsigned long long": 8, "unsigned long": 8, "bool": 1, "CEX::Numeric::ULong256": 32, "CEX::Numeric::UInt256": 32}


def vecsize(p, ex, cls, steps, memo={}):
    """number of elements every constructor gives a vector field"""
    own = steptype(p, cls, steps[:-1]) if len(steps) > 1 else cls
    while own and own.startswith(("std::vector<", "std::array<")): own = inner(own)
    k = (own, steps[-1])
    if k in memo: return memo[k]
    ns = set()
    st = [own] + list(p.bases(own or ""))
    for f in p.funcs.values():
        if f.cls not in st or not f.blocks: continue
        if f.base_nm == (f.cls or "").split("::")[-1]:
            for i in f.calls:
                ts = p.callees(i) or []
                g = p.funcs.get(ts[0]) if ts else None
                if g is None or not g.cls.startswith("std::vector") or g.base_nm != "vector" or len(i.args) < 2: continue
                o = ex.val(f, i.args[0])
                if o != ("fld", ("arg", 0), steps[-1]): continue
                n = ex.val(f, i.args[1])
                if "initializer_list" in "".join(g.sty[2:3]): n = ex.val(f, i.args[2]) if len(i.args) > 2 else ("?",)
                ns.add(n)
    r = next(iter(ns))[1] if len(ns) == 1 and next(iter(ns))[0] == "i" else None
    memo[k] = r
    return r


def covered(p, ex, cls, key, facts):
    if Must.prefix(facts, key): return True
    r, steps = key
    if len(steps) > 1 and steps[-1] != "#" and not (len(steps) == 2 and steps[1] == "->") and covered(p, ex, cls, (r, steps[:-1]), facts): return True
    ext = facts.get(key, set())
    t = steptype(p, cls, steps)
    w = WIDTH.get(inner(t or ""), 0)
    n = arraylen(t)
    if n is None and t and t.startswith("std::vector"): n = vecsize(p, ex, cls, steps)
    if n is not None and all(j in ext for j in range(n)): return True
    # ranges that follow each other
    ends = {I(0)}; done = False; w = w or 1
    while not done:
        done = True
        for x in ext:
            o, l = (I(x), I(1)) if isinstance(x, int) else (x[1], x[2]) if x != ALL else (None, None)
            if o is None: continue
            if isinstance(x, int) and w > 1: l = I(w); o = I(x * w)
            if o in ends:
                e = ir.add(o, l)
                if e not in ends: ends.add(e); done = False
    for e in ends:
        if n is not None and e == I(n * w): return True
        if e[0] == "size" or e[0] == "lin" and e[1] == 0 and len(e[2]) == 1 and e[2][0][0][0] == "size":
            q = path(e[1] if e[0] == "size" else e[2][0][0][1])
            if q and q[:2] == key: return True
    return False


def inits(p):
    """the functions the processing functions call to start again: what only they write is not state of the processing"""
    return {f.name for f in p.funcs.values() if f.in_cex and f.base_nm in ("Reset", "Initialize")}


# what is kept on purpose, and why
KEPT = {
    "m_parallelProfile": "a setting",
    "CEX::Drbg::BCG:m_bcgState.->.Reseed": "the reseeds an instance may make are counted over its life: Update, which reseeds, is an Initialize",
    "CEX::Cipher::Block::Mode::GCM:m_gcmState.->.Key.#": "a new nonce may be loaded without a key, and the key is then kept",
}


def kept(c, steps):
    return "m_parallelProfile" in steps or c + ":" + ".".join(steps) in KEPT


def constantly(p, ex, cls, key):
    """the vector is given one and the same size everywhere, which the object itself fixes"""
    name = key[1][-2]; vs = set()
    own = {cls} | set(p.bases(cls))
    for f in p.funcs.values():
        if f.cls not in own or not f.blocks: continue
        for i in f.calls:
            ts = p.callees(i) or []; g = p.funcs.get(ts[0]) if ts else None
            if g is None or not g.cls.startswith("std::vector") or g.base_nm not in ("resize", "assign", "operator=", "clear", "push_back", "insert"): continue
            q = path(ex.val(f, i.args[0]))
            if not q or q[1] != key[1][:-1]: continue
            vs.add(ex.val(f, i.args[1]) if g.base_nm == "resize" else ("?",))
    return len(vs) == 1 and next(iter(vs))[0] in ("i", "c", "m") and not mentions(next(iter(vs)), lambda q: q == ("?",) or q[0] == "arg" and q[1] > 0)


def settled(p, ex, cls, key):
    """all writes to the region give it the kind of a part the object owns"""
    vs = set(); own = {cls} | set(p.bases(cls)); t = steptype(p, cls, key[1][:-1]) if len(key[1]) > 1 else cls
    for f in p.funcs.values():
        if not f.blocks or f.cls not in own and f.cls != t: continue
        if f.base_nm == (f.cls or "").split("::")[-1]: continue
        for b in f.blocks:
            for i in b:
                if i.op != "store": continue
                q = path(ex.val(f, i.raw[5]))
                if not q or q[1] != (key[1] if f.cls in own else key[1][-1:]) or f.base_nm == "DeSerialize" or f.base_nm.startswith("~"): continue
                vs.add(ex.val(f, i.raw[4]))
    return len(vs) == 1 and mentions(next(iter(vs)), lambda q: q[0] in ("c", "m") and "Enumeral" in str(q[1])) and not mentions(next(iter(vs)), lambda q: q[0] == "arg" and q[1] > 0)


def run_C16(ctx):
    p = ctx.p
    ctx.rule = ("What the processing functions of each class (and all they call) may write in the object, and the lengths and members Initialize itself may set, is compared with what each initialising function writes on every "
                "normally ending path, with constant and contiguous ranges measured against the member's extent; each region not covered is an unmet obligation")
    may = May(p, ctx.ex, opaque=inits(p)); must = Must(ctx, may)
    reads = effects.Effects(p, ctx.ex, reads=True)
    for base, (proc, init) in BASES.items():
        for c in sorted(p.subs.get(base, ())):
            dirty = {}; own = {}
            for f in p.funcs.values():
                if f.cls != c or not f.virt or not f.blocks: continue
                into = dirty if f.base_nm in proc else own if f.base_nm == "Initialize" and f.base_nm in init else None
                if into is None: continue
                for (k, e), w in may.of(f).items():
                    q = path(e)
                    if q and q[0] == ("arg", 0) and q[1]: into.setdefault(q[:2], (f.base_nm, w))
            if not dirty: continue
            ctx.count("classes"); ctx.count("state regions", len(set(dirty) | set(own)))
            changed = set(dirty) | {k for k in own if not settled(p, ctx.ex, c, k)}

            def fixed(f, e):
                # a condition on what nothing but the constructor sets
                bad = []; n = [0]

                def look(x):
                    if not isinstance(x, tuple) or not x: return
                    if x[0] in ("ld", "up", "size"):
                        q = path(x[1])
                        if q is None or q[0] != ("arg", 0): bad.append(x)
                        else: n[0] += 1; bad.extend([1] if any(q[1][:len(k[1])] == k[1] or k[1][:len(q[1])] == q[1] and x[0] != "ld" and k[1][len(q[1]):] == ("#",) for k in changed) else [])
                        return
                    if x[0] in ("c", "m") or x[0] == "v":
                        g = p.funcs.get(x[1]) if x[0] == "c" else next((h for h in p.funcs.values() if h.cls == c and h.base_nm == x[1] and h.blocks), None) if x[0] == "m" else None
                        if g is None or not x[2] or x[2][0] != ("arg", 0): bad.append(x); return
                        for (k, r), w in reads.of(g).items():
                            q = path(r)
                            if k != "r" or q is None or q[0] != ("arg", 0) or any(q[1][:len(z[1])] == z[1] for z in changed): bad.append(x)
                        n[0] += 1
                        return
                    if x[0] == "arg": bad.append(x); return
                    for y in x[1:]:
                        if isinstance(y, tuple): look(y)
                look(e)
                return n[0] > 0 and not bad and f.cls == c
            weak = Must(ctx, may, fixed)
            for f in p.funcs.values():
                if f.cls != c or not f.virt or f.base_nm not in init or not f.blocks: continue
                s = must.of(f); ctx.count("initialisers"); sw = None
                for key, (who, w) in sorted({**(own if f.base_nm == "Initialize" else {}), **dirty}.items(), key=repr):
                    if kept(c, key[1]): continue
                    ctx.count("obligations")
                    if covered(p, ctx.ex, c, key, s): continue
                    if key[1][-1] == "#" and constantly(p, ctx.ex, c, key): continue
                    if key not in dirty or key[1][-1] == "*" or key[1][-1] == "#":
                        sw = sw or weak.of(f)
                        if covered(p, ctx.ex, c, key, sw): continue
                    ctx.report(f"C16:{short(f)}:{'.'.join(key[1])}", f"{f.relfile}:{f.line}", f"{short(f)} leaves {'.'.join(key[1])} as {who} has changed it ({w[0]})")
    ctx.floor("classes", 30); ctx.floor("obligations", 200)
    for k, v in KEPT.items(): ctx.sample(f"kept: {k}: {v}")
