"""C10 every byte of a message is absorbed exactly once, in order, however the message is cut into calls."""
import re
import ir, sym
from ir import I, add, show, root, mentions
from sym import fold, entails, nonneg
from frontend import Broken
from rules.parallel import bodies

MEMT = "CEX::Tools::MemoryTools"
IDX = ("lane",)
KECCAK = "CEX::Digest::Keccak"
BUFS = ("m_msgBuffer", "Buffer")
POS = ("m_msgLength", "Position")
# functions that take one block, or a given length, from an array at an offset; a digest's own block function takes one block
COMPRESS = ("Permute", "ProcessBlock", "EncryptBlock", "XOR128", "FastAbsorbx8")
LENGTHED = {"FastAbsorb": 2, "Absorb": 2}          # Keccak's, the length is the second argument behind the array
SYMBLOCK = {"KMAC": (1, "m_kmacState"), "KPA": (8, "m_kbaState")}
FIXBLOCK = {"GHASH": 16, "GMAC": 16, "CMAC": 16, "Poly1305": 16}
MULT = {"Blake256": 2, "Blake512": 2}
TALLY = {"CEX::Mac::KPA": "Processed", "CEX::Mac::GMAC": "Counter"}


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


class Absorb(sym.VecSym):
    MAXSTEPS = 400000
    MAXPATHS = 20000
    forks = 2
    forksel = True

    def __init__(self, ctx, f, par):
        super().__init__(ctx.p, ctx.ex); self.ctx = ctx; self.f = f; self.par = par; self.block = None; self.lane = None
        self.input = ("arg", 1); self.degree = ("deg",); self.mult = MULT.get(f.cls.split('::')[-1], 1); self.posaddr = None; self.posval = I(0)
        self.block = block(ctx, f.cls)

    def isbuf(self, v): return v[0] == "fld" and v[2] in BUFS

    def vsize(self, P, v):
        if self.isbuf(v) and v not in P.size: return self.cap()
        return super().vsize(P, v)

    def cap(self): return ir.mul(I(self.mult), ir.mul(self.degree, self.block)) if self.par else self.block

    def facts(self, P, e):
        step = ir.mul(self.degree, self.block)
        out = [add(self.cap(), self.posval, -1)]
        if self.par: out += [add(self.degree, I(-2)), add(("large",), step, -1)]
        for q in {q for c in list(P.cond) + [e] for q in quots(c)}:
            r = q if q[0] == "rem" else add(q[1], ir.mul(q[2], q), -1)
            out += [add(add(q[2], r, -1), I(-1)), add(q[1], r, -1)]
            if q[0] == "div": out.append(r)
        out += [c[2] for c, t in P.cond.items() if c[0] == "cmp" and c[3] == I(0) and (c[1], t) in (("ugt", False), ("ule", True))]      # not above zero is zero
        ks = sym.known(P)
        for q in {q for c in list(P.cond) + [e] for q in quots(c)}:
            if q[0] == "div": out += [ir.mul(q[2], k) for k in ks if k == ir.mul(I(-1), q) or k[0] == "lin" and len(k[2]) == 1 and k[2][0][0] == q]
            if q[0] == "rem" and any(nonneg(add(add(q[1], q[2], -1), k, -1)) for k in ks): out.append(add(add(q[1], q, -1), q[2], -1))
            if q[0] == "div" and any(nonneg(add(add(add(q[2], q[1], -1), I(-1)), k, -1)) for k in ks): out += [ir.mul(I(-1), q), ir.mul(I(-1), ir.mul(q[2], q))]      # less than the divisor
        for k in ks:
            m = add(k, I(1))
            if self.par and self.multiple(m, step): out.append(add(m, step, -1))       # a positive multiple is at least one step
        return out

    def multiple(self, e, step):
        """e is a multiple of degree * block"""
        while e[0] == "lin":
            q = next((t for t, k in e[2] if t[0] == "rem" and k == -1 and (t[2] == step or t[2] == ("large",))), None)
            if q is None: break
            e = add(add(e, q), q[1], -1)            # a - a mod m is a multiple of m
        return self.steps_of(e, step)

    def steps_of(self, d, step):
        if d == I(0): return True
        n = self.block[1] if self.block[0] == "i" else None
        return n and (d[0] == "lin" and d[1] == 0 and len(d[2]) == 1 and d[2][0][0] == self.degree and d[2][0][1] % n == 0)

    def holds(self, P, e):
        """e >= 0 follows from the path's facts: equalities are eliminated, then at most two inequalities are combined"""
        if nonneg(e): return True
        ks = list(dict.fromkeys(sym.known(P) + self.facts(P, e)))
        while True:
            s = set(ks)
            q = next((k for k in ks if k[0] == "lin" and ir.mul(I(-1), k) in s and any(abs(n) == 1 for t, n in k[2])), None)
            if q is None: break
            t, n = next((t, n) for t, n in q[2] if abs(n) == 1)
            def drop(x):
                m = next((m for y, m in x[2] if y == t), 0) if x[0] == "lin" else 1 if x == t else 0
                return add(x, ir.mul(I(-m * n), q)) if m else x
            ks = [k for k in dict.fromkeys(drop(k) for k in ks) if k[0] != "i" or k[1] < 0]; e = drop(e)
        return nonneg(e) or any(nonneg(add(e, k, -1)) for k in ks) or any(nonneg(add(add(e, a, -1), b, -1)) for n, a in enumerate(ks) for b in ks[:n])

    def decide(self, P, c):
        if c[0] == "cmp":
            d = add(c[2], c[3], -1)
            if c[1] in ("eq", "ne"):
                if self.holds(P, d) and self.holds(P, ir.mul(I(-1), d)): return c[1] == "eq"
                if self.holds(P, add(d, I(-1))) or self.holds(P, add(ir.mul(I(-1), d), I(-1))): return c[1] == "ne"
            else:
                if self.holds(P, cge(c, True)): return True
                if self.holds(P, cge(c, False)): return False
        return None

    def posnow(self, P):
        if self.posaddr is None: return self.posval
        return P.mem.get(self.posaddr, self.posval)

    def load(self, P, a):
        if a[0] == "fld" and a[2] in POS and self.posaddr is None: self.posaddr = a; self.posval = ("ld", a)
        return None

    def inline(self, g, args, P):
        if g.cls in (MEMT,) or g.cls.startswith("std::"): return False
        if g.base_nm in COMPRESS or g.cls == KECCAK: return False
        return g.in_cex and (g.cls == self.f.cls or g.file == self.f.file)

    def src(self, P, v): return v == self.input or self.isbuf(v)

    def vcopy(self, P, src, soff, dst, doff, n, f, i):
        if self.src(P, src) or self.isbuf(dst): P.ev.append(("copy", src, soff, dst, doff, n, i))

    def store(self, P, a, v, f, i):
        if a[0] == "el" and self.isbuf(a[1]) and v[0] == "ld" and v[1][0] == "el" and self.src(P, v[1][1]): P.ev.append(("copy", v[1][1], v[1][2], a[1], a[2], I(1), i))
        return False

    def state(self, args):
        for a in args:
            for q in sub(a):
                if q[0] == "el" and q[1][0] == "fld" and q[1][2] in ("m_dgtState", "State"): return q[2]
        return None

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts else None
        nm = g.base_nm if g is not None else (self.p.vname(i) if ts else None)
        if nm in ("IsParallel",):
            if i.raw[3] == "i1": return [(P, ("T",) if self.par else ("F",))]
            P.mem[("loc", "par")] = I(1 if self.par else 0); return [(P, ("loc", "par"))]
        if nm == "FanOut": P.mem[("fanout",)] = self.degree if self.par else I(1); return [(P, ("fanout",))]
        if nm == "ParallelMaxDegree" and len(args) == 1: return [(P, self.degree)]
        if nm == "ParallelMinimumSize": return [(P, ir.mul(self.degree, self.block))]
        if nm == "ParallelBlockSize": return [(P, ("large",))]
        if nm == "IsInitialized": return [(P, ("T",))]
        if g is not None and g.base_nm == "function" and "std::function" in g.cls and len(args) > 1:
            ws = bodies(self.p, g.name)
            if len(ws) == 1: P.data[("fn", args[0])] = (ws[0], args[1]); return [(P, None)]
        if g is not None and g.base_nm == "ParallelFor":
            w = P.data.get(("fn", args[2]))
            if w is None: raise Broken(f"{i.where}: the worker of this parallel section was not found")
            P.ev.append(("par", args[0], args[1], i)); out = []
            for kind, q, v in self.run(w[0], [w[1], IDX], P):
                if kind == "ret": q.ev.append(("end", i)); out.append((q, None))
            return out
        if nm is None: return None
        if nm == "LeIncreaseW" and len(args) == 3: P.ev.append(("inc", args[2], i)); return [(P, None)]
        if nm == "Increase" and len(args) == 2: return [(P, None)]         # SHA2-512's 128-bit counter; its block function counts the block too
        if nm == "Min" and g is not None and g.cls.endswith("IntegerTools") and len(args) == 2:
            c = ("cmp", "ule", args[0], args[1]); d = self.decide(P, c)
            if d is not None: return [(P, args[0 if d else 1])]
            q = P.copy(); P.cond[c] = True; q.cond[c] = False
            return [(P, args[0]), (q, args[1])]
        if g is not None and g.cls == MEMT and nm in ("Copy", "Move") and len(args) == 5 and (self.src(P, args[0]) or self.isbuf(args[2])):
            P.ev.append(("copy",) + tuple(args[:5]) + (i,)); return [(P, None)]
        for k, a in enumerate(args[:-1]):
            if not self.src(P, a) or g is not None and g.cls.startswith("std"): continue
            if nm in COMPRESS: n = self.block
            elif g is not None and g.cls == KECCAK and nm in LENGTHED and k + LENGTHED[nm] < len(args): n = args[k + LENGTHED[nm]]
            elif re.match(r"(?:Le|Be)BytesTo(16|32|64)$", nm or ""): n = I(int(nm[9:] if nm[9:].isdigit() else nm[-2:]) // 8)
            elif nm == "Update" and (g is None or g.cls != self.f.cls): n = args[-1]
            elif g is not None and self.inline(g, args, P): return None
            elif nm in ("operator[]", "at", "size", "begin", "end", "data"): break
            else: raise Broken(f"{i.where}: {nm} takes part of the message in a way that is not modelled")
            if nm == "ProcessBlock" and k + 3 < len(args): P.ev.append(("inc", args[k + 3], i))       # counts what it is told to count
            P.ev.append(("take", a, args[k + 1], n, self.state([y for y in args if y != a]), i)); return [(P, None)]
        if g is None: return None
        return self.std(P, f, i, g, args)


class Sizer(Absorb):
    """what the configuring functions make of the buffer"""
    def facts(self, P, e): return []

    def src(self, P, v): return False

    def inline(self, g, args, P): return g.cls == self.f.cls and sizes(self.p, g)

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts else None
        if g is not None and g.base_nm == "ParallelFor": return [(P, None)]
        return super().call(P, f, i, ts, args)


def sizes(p, f, seen=()):
    """f or a function of its class it calls gives a vector its size"""
    if f.name in seen: return False
    for i in f.calls:
        for t in p.callees(i):
            g = p.funcs.get(t)
            if g is None: continue
            if g.cls.startswith("std::vector") and g.base_nm in ("resize", "vector", "assign"): return True
            if g.cls == f.cls and sizes(p, g, seen + (f.name,)): return True
    return False


def quots(e):
    if not isinstance(e, tuple): return
    if len(e) == 3 and e[0] in ("rem", "div"): yield e
    for x in e: yield from quots(x)


def block(ctx, cls):
    """the block size a class works with"""
    own = cls.split("::")[-1]
    if own in SYMBLOCK: k, st = SYMBLOCK[own]; return ir.mul(I(k), ("ld", ("fld", ("up", ("fld", ("arg", 0), st)), "Rate")))
    if own in FIXBLOCK: return I(FIXBLOCK[own])
    fs = [g for g in ctx.p.funcs.values() if g.cls == cls and g.base_nm == "BlockSize" and g.blocks]
    for g in fs:
        r = [v for k, P, v in sym.VecSym(ctx.p, ctx.ex).run(g, [("arg", 0)]) if k == "ret"]
        if len(r) == 1 and r[0][0] == "i": return r[0]
    return I(0)


def cge(c, t):
    """the linear expression that is not negative exactly when the comparison has the value t"""
    op, a, b = c[1], c[2], c[3]
    k = op[1:] if op not in ("eq", "ne") else op
    if k in ("eq", "ne"): return I(-1)
    if not t: k = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le"}[k]
    return {"lt": add(add(b, a, -1), I(-1)), "le": add(b, a, -1), "gt": add(add(a, b, -1), I(-1)), "ge": add(a, b, -1)}[k]


def eqv(x, P, a, b):
    d = add(a, b, -1)
    if d == I(0): return True
    return x.holds(P, d) and x.holds(P, ir.mul(I(-1), d))


def tile(x, P, L, O):
    """replays the events of a path: None, or what is wrong with them"""
    pos0 = x.posval; s, pos, c, buf = I(0), pos0, I(0), None
    lanes = None; pend = None; counts = any(e[0] == "inc" for e in P.ev)
    for e in P.ev:
        at = e[-1]
        if e[0] == "par": lanes = (e[1], e[2], [])
        elif e[0] == "end":
            lo, hi, got = lanes; lanes = None
            if not got: continue
            if lo != I(0): return at, f"starts its leaves at {show(lo)}, the first leaf takes nothing"
            if not eqv(x, P, hi, x.degree): return at, f"gives work to {show(hi)} leaves of {show(x.degree)}"
            a = got[0][0]; base = None; step = ir.mul(x.degree, x.block)
            for k, (v, o, n, st, w) in enumerate(got):
                if st is not None and st != IDX: return w, f"leaf i absorbs into state {show(st)}"
                b = add(o, ir.mul(IDX, x.block), -1)
                if mentions(b, lambda q: q == IDX): return w, f"leaf i reads from {show(o)}, its blocks start {show(x.block)} bytes behind those of leaf i-1"
                if k == 0: base = b
                elif v != a: return w, "a leaf reads two arrays"
                elif not eqv(x, P, b, add(base, ir.mul(I(k), step))): return w, f"block {k} of a leaf is read at {show(b)}, it lies {show(step)} behind the one before"
                if n != x.block: return w, f"a leaf takes {show(n)} bytes at a time, its block has {show(x.block)}"
            total = ir.mul(I(len(got)), step)
            e = ("take", a, base, total, None, got[0][4])
            r = one(x, P, e, O, s, pos, c)
            if len(r) == 2: return r
            s, pos, c = r
        elif e[0] == "inc":
            if pend is not None: return at, "counts a block twice"
            pend = e[1]
        elif e[0] == "take":
            if counts and (pend is None or not eqv(x, P, pend, e[3])): return at, f"absorbs {show(e[3])} bytes and counts {show(pend) if pend is not None else 'none'}"
            pend = None
            if lanes is not None: lanes[2].append(e[1:]); continue
            if e[4] is not None and e[4] != I(0): return at, f"absorbs into state {show(e[4])}"
            if e[4] is not None and x.par: return at, "absorbs bytes that belong to several leaves into one"
            r = one(x, P, e, O, s, pos, c)
            if len(r) == 2: return r
            s, pos, c = r
        elif e[0] == "copy":
            _, a, ao, b, bo, n, at = e
            if not x.isbuf(b): return at, "copies message bytes somewhere else than into its buffer"
            if x.isbuf(a):
                if a != b or bo != I(0) or not eqv(x, P, ao, s): return at, f"moves the buffer's content from {show(ao)}, the bytes not yet absorbed start at {show(s)}"
                if not x.holds(P, add(add(n, s), pos, -1)): return at, f"moves {show(n)} bytes of the {show(add(pos, s, -1))} not yet absorbed"
                pos = add(pos, s, -1); s = I(0); continue
            if not eqv(x, P, s, I(0)) and eqv(x, P, s, pos): s = pos = I(0)
            if not eqv(x, P, ao, add(O, c)): return at, f"buffers the message from {show(ao)}, the bytes not yet taken start at {show(add(O, c))}"
            if not eqv(x, P, bo, pos): return at, f"buffers at position {show(bo)}, the buffer is filled up to {show(pos)}"
            pos = add(pos, n); c = add(c, n)
            if not x.holds(P, add(x.cap(), pos, -1)): return at, f"fills its buffer of {show(x.cap())} bytes up to {show(pos)}"
    if not eqv(x, P, c, L): return None, f"takes {show(c)} of the {show(L)} bytes given"
    end = x.posnow(P)
    if eqv(x, P, s, pos): s = pos = I(0)
    if not eqv(x, P, s, I(0)): return None, f"leaves absorbed bytes at the start of its buffer"
    if not eqv(x, P, end, pos): return None, f"leaves the position at {show(end)}, {show(pos)} bytes are waiting in the buffer"
    return None


def one(x, P, e, O, s, pos, c):
    _, a, o, n, _, at = e
    if x.holds(P, ir.mul(I(-1), n)): return s, pos, c
    if a == x.input:
        if not eqv(x, P, s, pos): return at, "absorbs the message before the bytes waiting in the buffer"
        if not eqv(x, P, o, add(O, c)): return at, f"absorbs the message from {show(o)}, the bytes not yet taken start at {show(add(O, c))}"
        return I(0), I(0), add(c, n)
    if not eqv(x, P, o, s): return at, f"absorbs the buffer from {show(o)}, the bytes not yet absorbed start at {show(s)}"
    if not x.holds(P, add(pos, add(o, n), -1)): return at, f"absorbs {show(n)} bytes of its buffer, which holds {show(add(pos, s, -1))} unabsorbed ones"
    return add(o, n), pos, c


# ------------------------------------------------------------------ the end of a message
class Unknown(Exception):
    """a comparison the replay needs and the path does not decide"""


class Final(Absorb):
    """the buffer holds q whole blocks and r more bytes"""
    MAXLOOP = 200
    MAXDEPTH = 8
    LEAVE = ("Reset", "LoadState", "Initialize", "Name", "ToName")

    def __init__(self, ctx, f, par, D, q, r, rate=136):
        super().__init__(ctx, f, par); own = f.cls.split("::")[-1]
        self.rate = I(rate); self.leaves = D if par else 8 if own == "KPA" else 0
        if own in SYMBLOCK: self.block = I(SYMBLOCK[own][0] * rate)
        self.degree = I(D); self.q, self.r = q, r; self.pos0 = add(ir.mul(I(q), self.block), r)

    def facts(self, P, e):
        out = [add(add(self.block, self.r, -1), I(-1))] + super().facts(P, e)
        if self.r[0] != "i": out.append(add(self.r, I(-1)))
        return out

    def load(self, P, a):
        if a[0] == "fld" and a[2] in POS and a not in P.mem and a[1][0] in ("arg", "up"): return self.pos0
        if a[0] == "fld" and a[2] == "Rate" and a not in P.mem: return self.rate
        return None

    def plain(self, e):
        """built from constants and the rest only"""
        if e == self.r or e[0] == "i": return True
        if e[0] == "lin": return all(self.plain(t) for t, _ in e[2])
        return e[0] in ("rem", "div") and self.plain(e[1]) and e[2][0] == "i"

    def simp(self, P, e):
        """quotients and remainders by a known divisor"""
        for q in quots(e):
            d = q[2]
            if d[0] != "i" or d[1] == 0 or not self.plain(q[1]): continue
            a = self.simp(P, q[1])
            if a[0] == "i": v = a[1] // d[1]
            else:
                k = a[1] // d[1] if a[0] == "lin" and all(t == self.r for t, _ in a[2]) else 0
                if a[0] not in ("lin",) and a != self.r: continue
                low = add(a, I(-k * d[1]))
                if not (self.holds(P, low) and self.holds(P, add(I(d[1] - 1), low, -1))): continue
                v = k
            return self.simp(P, sym.subst(e, {q: I(v) if q[0] == "div" else add(a, I(-v * d[1]))}))
        return e

    def val(self, P, f, v, env, args):
        r = super().val(P, f, v, env, args)
        return self.simp(P, r) if any(True for _ in quots(r)) else r

    def truth(self, P, c):
        d = super().truth(P, c)
        if d is None and c[0] == "cmp":
            n = fold(("cmp", c[1], self.simp(P, c[2]), self.simp(P, c[3])))
            if n != c: d = super().truth(P, n)
        return d

    def enter(self, P, f, bi, pred, env):
        """a loop that only writes one byte per turn is taken to its end at once"""
        l = next((l for l in f.loops if l["h"] == bi), None)
        if l is None or pred not in l["bl"]: return
        phis = [i.id for i in f.blocks[bi] if i.op == "phi"]
        if len(phis) != 1 or not P.ev or P.ev[-1][0] != "def" or not filling(self.p, f, l): return
        cur = env[phis[0]]; e = P.ev[-1]
        if add(cur, e[2], -1) != I(1) or e[3] != I(1): return
        c = next((i.raw for i in f.blocks[bi] if i.op == "icmp" and i.raw[3] in ("ult", "ne") and i.raw[4] == phis[0]), None)
        n = None if c is None else I(int(c[5][2:])) if isinstance(c[5], str) and c[5].startswith("i:") else env.get(c[5])
        if n is None: return
        P.ev.append(("def", e[1], cur, add(n, cur, -1), e[4])); env[phis[0]] = n

    def tracked(self, v): return v[0] == "loc" or self.isbuf(v)

    def inline(self, g, args, P):
        if g.base_nm in self.LEAVE: return False
        return super().inline(g, args, P)

    def vfill(self, P, v, off, n, f, i):
        if self.tracked(v): P.ev.append(("def", v, off, n, i))

    def vcopy(self, P, src, soff, dst, doff, n, f, i):
        if self.tracked(src) or self.tracked(dst): P.ev.append(("copy", src, soff, dst, doff, n, None, i))

    def store(self, P, a, v, f, i):
        if a[0] == "el" and self.isbuf(a[1]): P.ev.append(("def", a[1], a[2], I(max(1, int(re.sub(r"\D", "", i.raw[3] if isinstance(i.raw[3], str) else "8") or 8) // 8)), i))
        return False

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts else None
        nm = g.base_nm if g is not None else (self.p.vname(i) if ts else None)
        if nm is None: return None
        if g is not None and g.cls == MEMT:
            if nm in ("Clear", "SetValue") and len(args) >= 3: P.ev.append(("def", args[0], args[1], args[2], i)); return [(P, None)]
            if nm in ("Copy", "Move") and len(args) == 5:
                P.ev.append(("copy",) + tuple(args[:5]) + (self.state([args[0]]), i)); return [(P, None)]
            if nm == "XOR" and len(args) == 5 and self.tracked(args[0]): P.ev.append(("take", args[0], args[1], args[4], None, i)); return [(P, None)]
        if nm in ("SecureMove", "SecureCopy") and len(args) == 5: P.ev.append(("copy",) + tuple(args[:5]) + (None, i)); return [(P, None)]
        m = re.match(r"(?:Le|Be)U?L*(\d+)ToBlock$", nm)
        if m and len(args) == 4: P.ev.append(("leaf", self.state([args[0]]), args[2], args[3], I(int(m.group(1)) // 8), i)); return [(P, None)]
        m = re.match(r"(?:Le|Be)(16|32|64)ToBytes$", nm)
        if m and len(args) == 3: P.ev.append(("def", args[1], args[2], I(int(m.group(1)) // 8), i)); return [(P, None)]
        if nm == "size" and g is not None and g.cls.startswith("std::vector") and args[0][0] == "fld" and args[0][2] == "m_dgtState": return [(P, self.degree if self.par else I(1))]
        return super().call(P, f, i, ts, args)

    def src(self, P, v): return self.isbuf(v) or v[0] == "loc" and any(e[0] in ("leaf", "copy") and v in e for e in P.ev)


def filling(p, f, l):
    """the loop's only effects are one store and the step of its counter"""
    stores = 0
    for b in l["bl"]:
        for i in f.blocks[b]:
            if i.op == "store": stores += 1
            elif i.op in ("call", "invoke"):
                ts = p.callees(i) or ()
                if not ts or any(p.funcs.get(t) is None or not p.funcs[t].cls.startswith("std::") or p.funcs[t].base_nm not in ("operator[]", "size", "at", "operator->") for t in ts): return False
    return stores == 1


def sub(e):
    if isinstance(e, tuple):
        if e and isinstance(e[0], str): yield e
        for x in e: yield from sub(x)


class Memory:
    """what the arrays hold, newest first"""
    def __init__(self, x, P): self.x = x; self.P = P; self.seg = {}

    def cmp(self, a, b):
        """a <= b"""
        d = add(b, a, -1)
        if self.x.holds(self.P, d): return True
        if self.x.holds(self.P, add(ir.mul(I(-1), d), I(-1))): return False
        raise Unknown(("cmp", "ule", a, b))

    def put(self, v, lo, n, kind):
        hi = add(lo, n)
        if kind[0] == "def" and not (self.x.plain(lo) and self.x.plain(hi)): return          # a write at an unknown place defines nothing for certain
        if not self.cmp(hi, lo): self.seg.setdefault(v, []).insert(0, (lo, hi, kind))

    def get(self, v, lo, n):
        """pieces of [lo, lo+n): (from, to, kind)"""
        cur, end, out = lo, add(lo, n), []
        while not self.cmp(end, cur):
            nxt, hit = end, None
            for a, b, k in self.seg.get(v, ()):
                if self.cmp(a, cur):
                    if self.cmp(b, cur): continue
                    hit = hit or k
                    if self.cmp(b, nxt): nxt = b
                    if hit is k: break
                elif self.cmp(a, nxt): nxt = a
            out.append((cur, nxt, hit)); cur = nxt
        return out


def finish(x, P, depth=0):
    """replays the end of a message for every case the path leaves open"""
    if x.holds(P, I(-1)): return None
    try: return finish1(x, P)
    except Unknown as u:
        if depth > 8: raise Broken(f"{short(x.f)}: the case {show(u.args[0])} is not decided")
        for t in (True, False):
            q = P.copy(); q.cond[u.args[0]] = t
            r = finish(x, q, depth + 1)
            if r is not None: return r
    return None


def finish1(x, P):
    """replays the end of a message: None, or what is wrong"""
    m = Memory(x, P); buf = None; msg = []; leaves = {}; got = {}; pend = None; counts = any(e[0] == "inc" for e in P.ev)
    for e in P.ev:
        if e[0] in ("take", "def") and x.isbuf(e[1]): buf = e[1]; break
        if e[0] == "copy" and (x.isbuf(e[3])): buf = e[3]; break
    if buf is not None: m.put(buf, I(0), x.pos0, ("msg",))
    for e in P.ev:
        at = e[-1]
        if e[0] == "def" and x.tracked(e[1]): m.put(e[1], e[2], e[3], ("def",))
        elif e[0] == "leaf":
            k = e[1]
            if k is not None and x.tracked(e[2]): m.put(e[2], e[3], e[4], ("leaf", k, e[3])); leaves[k] = e[4]
        elif e[0] == "copy":
            _, a, ao, b, bo, n, st, at = e
            if not x.tracked(b): continue
            if st is not None and x.tracked(b): m.put(b, bo, n, ("leaf", st, bo)); leaves[st] = n
            elif a in m.seg:
                for lo, hi, k in m.get(a, ao, n):
                    d = add(bo, add(lo, ao, -1))
                    if k is None: k = ("stale",)
                    if k[0] == "msg": m.put(a, lo, add(hi, lo, -1), ("used",))
                    m.put(b, d, add(hi, lo, -1), k)
            else: m.put(b, bo, n, ("def",))
        elif e[0] == "take":
            _, a, o, n, st, at = e
            if a not in m.seg and not x.isbuf(a): pend = None; continue
            real = I(0)
            for lo, hi, k in m.get(a, o, n):
                if k and k[0] != "def": real = add(real, add(hi, lo, -1))
                if k is None or k[0] in ("used", "stale"): return at, f"absorbs {show(add(hi, lo, -1))} bytes at {show(lo)} of its buffer that hold {'message bytes absorbed before' if k and k[0] == 'used' else 'leftovers of an earlier block'}"
                if k[0] == "msg":
                    msg.append(add(hi, lo, -1)); m.put(a, lo, add(hi, lo, -1), ("used",))
                    if x.par and st is not None and st[0] == "i" and o[0] == "i" and st[1] != (o[1] // x.block[1]) % x.degree[1]: return at, f"absorbs block {o[1] // x.block[1]} into leaf {st[1]}"
                if k[0] == "leaf": got[k[1]] = add(got.get(k[1], I(0)), add(hi, lo, -1)); m.put(a, lo, add(hi, lo, -1), ("used",))
            if counts and (pend is None or not eqv(x, P, pend, real)): return at, f"absorbs {show(real)} bytes and counts {show(pend) if pend is not None else 'none'}"
            pend = None
        elif e[0] == "inc":
            if pend is not None: return at, "counts a block twice"
            pend = e[1]
    total = I(0)
    for n in msg: total = add(total, n)
    if not eqv(x, P, total, x.pos0): return None, f"absorbs {show(total)} of the {show(x.pos0)} bytes waiting in its buffer"
    if x.leaves:
        for k in range(x.leaves):
            if I(k) not in leaves: return None, f"does not take leaf {k} into the root"
            if not eqv(x, P, got.get(I(k), I(0)), leaves[I(k)]): return None, f"absorbs {show(got.get(I(k), I(0)))} of the {show(leaves[I(k)])} bytes of leaf {k} into the root"
    return None


class Whole(sym.VecSym):
    """the overloads that hand a whole value or message on"""
    def inline(self, g, args, P): return g.cls == self.f.cls and g.base_nm not in ("Update", "Finalize", "Reset", "Name")

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts else None
        nm = g.base_nm if g is not None else (self.p.vname(i) if ts else None)
        if nm in ("Update", "Finalize"): P.ev.append((nm, tuple(args), i)); return [(P, I(0))]
        if nm == "IsInitialized": return [(P, ("T",))]
        if g is None: return None
        return self.std(P, f, i, g, args)


def whole(ctx, f):
    """an overload that takes one value, or a whole message"""
    x = Whole(ctx.p, ctx.ex); x.f = f; n = 0
    for kind, P, v in x.run(f, [("arg", k) for k in range(f.nargs)]):
        if kind != "ret": continue
        n += 1
        ups = [e for e in P.ev if e[0] == "Update"]; fin = [e for e in P.ev if e[0] == "Finalize"]
        if not ups: return n, (None, "hands nothing to Update")
        at = I(0); vec = ups[0][1][1]
        for _, a, i in ups:
            if len(a) != 4: return n, (i, "hands its input on in a way that is not modelled")
            if a[1] != vec: return n, (i, "hands on two arrays")
            if add(a[2], at, -1) != I(0): return n, (i, f"hands the input on from {show(a[2])}, what comes next starts at {show(at)}")
            at = add(at, a[3])
        size = x.vsize(P, vec)
        if add(size, at, -1) != I(0): return n, (ups[-1][2], f"hands on {show(at)} of the {show(size)} bytes")
        if f.base_nm == "Compute":
            if vec != ("arg", 1): return n, (ups[0][2], "hashes something else than its input")
            if len(fin) != 1 or P.ev.index(fin[0]) < P.ev.index(ups[-1]): return n, (None, "does not finish the message once, after all of it was handed on")
    return n, None


def classes(p):
    out = {}
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.in_cex and f.cls.startswith(("CEX::Digest", "CEX::Mac")) and f.blocks: out.setdefault(f.cls, []).append(f)
    return {c: fs for c, fs in out.items() if any(f.base_nm == "Update" and f.nargs >= 4 for f in fs)}


def run_C10(ctx):
    p = ctx.p
    ctx.rule = ("On every path of Update the bytes waiting in the buffer and the given bytes reach the block function once, in order, in whole blocks, in tree mode block i of each round in leaf i; what is left is buffered behind what waits, inside the buffer, "
                "and the position says how much; Finalize, for every number of waiting bytes, hands exactly those and its own padding to the block function and takes every leaf into the root; the functions that set the tree's degree size the buffer for it.")
    ctx.assume += ["the numbers of bytes do not overflow size_t", "ParallelBlockSize is a multiple of the number of leaves times the block, and at least that", "the block functions read one block at the offset they are given",
               "loops over blocks are followed for up to two rounds; each round is checked against the position the one before left"]
    for cls, fs in classes(p).items():
        own = cls.split("::")[-1]; tree = any(g.base_nm == "ProcessLeaf" for g in fs)
        if tree: sizing(ctx, cls, fs)
        for f in fs:
            if f.base_nm == "Update" and f.nargs >= 4: updates(ctx, f, tree)
            if f.base_nm == "Finalize" and f.nargs == 3 and own != "HMAC": finals(ctx, f, tree)
            if f.base_nm == "Update" and f.nargs == 2 or f.base_nm == "Compute" and f.nargs == 3:
                n, r = whole(ctx, f); ctx.count("overloads")
                if not n: raise Broken(f"{f.short}: no path to its end")
                if r: ctx.report(f"C10:{own}:{f.base_nm}:{f.sty[1] if len(f.sty) > 1 else ''}:hand", r[0].where if r[0] else f.relfile, f"{short(f)} {r[1]}")
    for k, n in (("updates", 15), ("update paths", 400), ("finals", 17), ("final cases", 150), ("sizes", 100), ("overloads", 36)): ctx.floor(k, n)


def updates(ctx, f, tree):
    L = f.nargs - 1; own = f.cls.split("::")[-1]; ctx.count("updates")
    for par in ((False, True) if tree else (False,)):
        x = Absorb(ctx, f, par); n = 0; how = "tree" if par else "seq"
        for kind, P, v in x.run(f, [("arg", k) for k in range(f.nargs)]):
            if kind != "ret" or x.holds(P, I(-1)): continue
            n += 1
            r = tile(x, P, ("arg", L), ("arg", 2)) or tally(x, P, f, ("arg", L))
            if r is not None: ctx.report(f"C10:{own}:Update:{how}", r[0].where if r[0] else f.relfile, f"{short(f)}{' in tree mode' if par else ''} {r[1]}"); break
        if not n: raise Broken(f"{f.short}: no path to its end")
        ctx.count("update paths", n); ctx.sample(f"{short(f)} {how}: {n} paths, {x.steps} blocks")


def tally(x, P, f, L):
    nm = TALLY.get(f.cls)
    if nm is None: return None
    a = next((a for a in P.mem if a[0] == "fld" and a[2] == nm), None)
    got = add(P.mem[a], ("ld", a), -1) if a is not None else I(0)
    want = L
    if f.cls.endswith("KPA"):
        want = I(0)
        for e in P.ev:
            if e[0] == "take": want = add(want, e[3])
    if not eqv(x, P, got, want): return None, f"adds {show(got)} to {nm} for {show(want)} bytes"
    return None


def finals(ctx, f, tree):
    own = f.cls.split("::")[-1]; ctx.count("finals"); D = 4; mult = MULT.get(own, 1)
    for par in ((False, True) if tree else (False,)):
        how = "tree" if par else "seq"; n = 0
        for q in range((D * mult if par else 1) + 1):
            for r in (I(0), ("rest",)):
                if q == (D * mult if par else 1) and r != I(0): continue
                x = Final(ctx, f, par, D, q, r); m = 0; w = None
                for kind, P, v in x.run(f, [("arg", k) for k in range(f.nargs)]):
                    if kind != "ret" or x.holds(P, I(-1)): continue
                    m += 1; w = finish(x, P)
                    if w is not None: break
                if not m: raise Broken(f"{f.short}: no path to its end with {q} blocks waiting")
                n += m; ctx.count("final cases")
                if w is not None:
                    ctx.report(f"C10:{own}:Finalize:{how}", w[0].where if w[0] else f.relfile, f"{short(f)}{' in tree mode' if par else ''}, {q} blocks{'' if r == I(0) else ' and some bytes'} waiting, {w[1]}"); break
            if w is not None: break
        ctx.sample(f"{short(f)} {how}: {n} paths")


def sizing(ctx, cls, fs):
    own = cls.split("::")[-1]; mult = MULT.get(own, 1)
    for f in fs:
        if f.base_nm in ("Update", "Finalize", "Compute") or f.base_nm.startswith("~") or not (sizes(ctx.p, f) or f.base_nm == "ParallelMaxDegree" and f.nargs == 2): continue
        for par in (False, True):
            x = Sizer(ctx, f, par)
            for kind, P, v in x.run(f, [("arg", k) for k in range(f.nargs)]):
                if kind != "ret": continue
                got = {k[2]: s for k, s in P.size.items() if k[0] == "fld" and k[1] == ("arg", 0)}
                st, bf = got.get("m_dgtState"), got.get("m_msgBuffer"); ctx.count("sizes")
                if f.base_nm == "ParallelMaxDegree" and par and (st not in (x.degree, ("arg", 1)) or bf is None): w = "changes the degree and keeps the states or the buffer of the former one"
                elif st is None or bf is None: continue
                elif st == I(1) and bf[0] == "i" and bf[1] >= x.block[1]: continue
                elif bf != ir.mul(I(mult), ir.mul(st, x.block)): w = f"gives {show(st)} leaves a buffer of {show(bf)} bytes, the tree works with {show(ir.mul(I(mult), ir.mul(st, x.block)))}"
                else: continue
                ctx.report(f"C10:{own}:{f.base_nm}:size", f.relfile, f"{short(f)} {w}")
