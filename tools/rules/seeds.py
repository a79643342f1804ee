"""C08 seeds and keys are completely filled by the random source before they are used."""
import ir, sym
from ir import I, add, show, root, mentions
from sym import LoopSym, fold, entails, nonneg, known
from frontend import Broken

SRC = ("CEX::Prng::IPrng", "CEX::Provider::IProvider")
MEMT = "CEX::Tools::MemoryTools"


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


def isbytes(t): return "vector<unsigned char" in t or "array<unsigned char" in t


class Scope:
    """which functions draw random bytes, and which of them are the places to start from"""

    def __init__(self, ctx):
        p = self.p = ctx.p
        self.src = set(SRC) | {"CEX::Prng::SecureRandom"}
        for b in SRC: self.src |= set(p.subs.get(b, ()))
        self.direct, self.reach = {}, set()
        for f in p.funcs.values():
            if not f.in_cex or not f.blocks or self.served(f): continue
            n = [i for i in f.calls if self.fill(i)]
            if n: self.direct[f.name] = f; self.reach.add(f.name)
        st = list(self.reach); self.callers = {}
        while st:
            n = st.pop()
            for i in p.callers.get(n, ()):
                g = i.fn
                if not g.in_cex or self.served(g): continue
                ts = p.callees(i)
                if not self.near(g, p.funcs[n]): continue
                if len(ts or ()) != 1 or not isinstance(i.callee, str): continue
                self.callers.setdefault(n, set()).add(g.name)
                if g.name not in self.reach: self.reach.add(g.name); st.append(g.name)

    def served(self, f): return f.cls in self.src and (f.base_nm in ("Generate", "Fill") or f.base_nm.startswith("Next"))

    def near(self, f, g):
        """the call hands arrays or the generator on, or stays in the class"""
        return f.cls == g.cls and not g.base_nm == g.cls.split("::")[-1] or any(isbytes(t) and t.endswith("&") or "IPrng" in t or "IProvider" in t for t in g.sty[1:])

    def fill(self, i):
        ts = self.p.callees(i)
        if not ts: return False
        g = self.p.funcs.get(ts[0])
        nm = g.base_nm if g is not None else self.p.vname(i)
        if nm not in ("Generate", "Fill"): return False
        cl = {self.p.funcs[t].cls for t in ts if t in self.p.funcs}
        return bool(cl & self.src) and bool(g is None or g.sty[2:] and isbytes(g.sty[2]))


def p_caller(x): return x.p.funcs[x.stack[-1]]


class Fill(LoopSym):
    """written and random-filled parts of byte arrays along a path"""
    forks = 2
    MAXSTEPS = 60000

    def __init__(self, ctx, sc, top):
        super().__init__(ctx.p, ctx.ex); self.ctx = ctx; self.sc = sc; self.top = top; self.bad = []

    def forget(self, P, f, l): P.mem = {k: v for k, v in P.mem.items() if k[0] in ("up",)}
    def summarize(self, P, f, l): return not l["bt"].isdigit() or int(l["bt"]) > 8

    # ---- arrays
    def local(self, P, v): return ("vec", v) in P.data

    def cov(self, P, v): return P.data.get(("cov", v), ())

    def write(self, P, v, off, ln, kind):
        P.data[("cov", v)] = self.cov(P, v) + ((fold(off), None if ln is None else fold(ln), kind),)

    def vnew(self, P, v, f, i):
        P.data[("vec", v)] = f.name; P.data[("cov", v)] = P.data.pop(("pend", v), ())

    def vcopy(self, P, src, soff, dst, doff, n, f, i):
        self.use(P, src, soff, n, f, i)
        P.data[("pend", dst)] = ((fold(doff), fold(n), "copy"),)
        if ("vec", dst) in P.data: P.data[("cov", dst)] = P.data.pop(("pend", dst))

    def end(self, P, v, frm):
        """end of the gapless run that starts at frm; None: open"""
        e = fold(frm)
        for _ in range(12):
            nxt = e
            for o, n, k in self.cov(P, v):
                if o == e or self.le(P, o, e):
                    if n is None: return None
                    t = fold(add(o, n))
                    if t != nxt and self.le(P, nxt, t): nxt = t
            if nxt == e: return e
            e = nxt
        return e

    def le(self, P, a, b):
        d = fold(add(b, a, -1))
        return d == I(0) or (nonneg(d) if d[0] in ("i", "lin") else entails(P, d))

    def use(self, P, v, off, ln, f, i, what="uses"):
        """off..off+ln of v is consumed (ln None: from off to the end of the array)"""
        if not self.local(P, v):
            if ln is None or not any(k == "random" and o == fold(off) for o, n, k in self.cov(P, v)): return
        size = self.vsize(P, v)
        if ln is None: ln = add(size, off, -1)
        ln = fold(ln)
        if ln == I(0) or fold(size) == I(0): return
        self.ctx.count("array uses"); P.data[("used", v)] = P.data.get(("used", v), ()) + ((fold(off), fold(add(off, ln))),)
        e = self.end(P, v, off)
        if e is not None and fold(size)[0] != "i" and fold(add(off, ln)) == fold(size) and all(self.le(P, o, e) for o, n, k in self.cov(P, v)) and self.cov(P, v): return
        if e is None or self.le(P, add(off, ln), e): return
        if off[0] != "i" and mentions(off, lambda q: q[0] == "ind"):
            w = self.end(P, v, I(0))
            if w is None or self.le(P, size, w): return
        self.bad.append((f, i, v, off, ln, e, what, P.data.get(("order",), ())))

    def looped(self, v, order):
        """the array is also written by a loop that was passed"""
        return any((t[0].name, t[1]) == k[1:] and len(t[2].data.get(("cov", v), ())) > t[2].data.get(("n",) + k, {}).get(v, 0) for t in self.turns for k in order)

    def enter(self, P, f, bi, pred, env):
        r = super().enter(P, f, bi, pred, env)
        if r is None and P.data.get(("order",), ())[-1:] == (("loop", f.name, bi),) and ("n", "loop", f.name, bi) not in P.data:
            P.data[("n", "loop", f.name, bi)] = {k[1]: len(c) for k, c in P.data.items() if k[0] == "cov"}
        return r

    # ---- instructions
    def ptr(self, P, a):
        """(array, offset) of an address inside a tracked array"""
        off = I(0); n = 0
        while a[0] in ("el", "off"):
            off = add(off, a[2] if a[0] == "el" else I(a[2])); a = a[1]; n += 1
            if self.local(P, a) or self.cov(P, a): return a, off
        return None

    def store(self, P, a, v, f, i):
        q = self.ptr(P, a)
        if q is not None: self.write(P, q[0], q[1], None if mentions(q[1], lambda e: e[0] == "ind") else I(1), "store")
        return False

    def load(self, P, a):
        q = self.ptr(P, a)
        if q is not None and self.local(P, q[0]): self.use(P, q[0], q[1], I(1), self.top, self.top.blocks[0][0])
        return None

    def call(self, P, f, i, ts, args):
        p = self.p; g = p.funcs.get(ts[0]) if ts else None
        if self.sc.fill(i):
            v = args[1]; off, ln = (args[2], args[3]) if len(args) >= 4 else (I(0), self.vsize(P, v))
            self.ctx.count("random fills on paths"); self.nfill = getattr(self, "nfill", 0) + 1
            P.ev.append(("fill", v, fold(off), fold(ln), i.where))
            self.write(P, v, off, ln, "random"); return [(P, None)]
        if g is None: return None
        if f is self.top and g.cls.split("::")[-1].startswith("Asymmetric") and g.base_nm == g.cls.split("::")[-1]:
            for a in args[1:]:
                if ("cov", a) in P.data: self.delivered(P, a, f, i)
        if g.base_nm.endswith("ParseOid"): return [(P, I(0))]
        if len(ts) == 1 and self.inline(g, args, P): return None
        r = self.std(P, f, i, g, args)
        if r is not None: return r
        if g.cls.startswith("std::") and not g.in_cex and g.base_nm not in ("copy", "fill", "memcpy"): return None
        nm = g.base_nm; tys = dict(g.param_types_static())
        if (g.cls == MEMT or not g.cls) and nm in ("Copy", "Move", "SecureMove", "SecureCopy", "SecureInsert") and len(args) == 5:
            self.use(P, args[0], args[1], args[4], f, i); self.write(P, args[2], args[3], args[4], "copy"); return [(P, None)]
        if g.cls == MEMT and nm == "CopyRaw" and len(args) == 3:
            q, r = self.ptr(P, args[0]), self.ptr(P, args[1])
            if q is not None: self.use(P, q[0], q[1], args[2], f, i)
            if r is not None: self.write(P, r[0], r[1], args[2], "copy")
            return [(P, None)]
        if g.cls == MEMT and nm == "Clear" and len(args) == 3: self.write(P, args[0], args[1], args[2], "clear"); return [(P, None)]
        n = 0
        while n < len(args):
            a, t = args[n], tys.get(n, "")
            if isbytes(t) and t.endswith("&"):
                ints = []
                while len(ints) < 2 and tys.get(n + 1 + len(ints), "").replace("const ", "") == "unsigned long long": ints.append(args[n + 1 + len(ints)])
                if t.startswith("const "):
                    if len(ints) == 2: self.use(P, a, ints[0], ints[1], f, i)
                    elif a[0] != "el" and P.data.get(("vec", a)) == f.name: self.use(P, a, I(0), None, f, i)
                else:
                    self.write(P, a, ints[0] if ints else I(0), None, "open")
            elif t.endswith("*") and "char" in t:
                q = self.ptr(P, a)
                if q is not None:
                    nx = tys.get(n + 1, "").replace("const ", "")
                    if t.startswith("const "):
                        if nx == "unsigned long long": self.use(P, q[0], q[1], args[n + 1], f, i)
                        else: self.use(P, q[0], q[1], I(1), f, i)
                    else: self.write(P, q[0], q[1], None, "open")
            n += 1
        return None

    def inline(self, g, args, P): return g.name in self.sc.reach and self.sc.near(p_caller(self), g) or self.filler(g)

    def filler(self, g):
        """a short function without loops that writes part of an array"""
        return g.in_cex and not g.loops and 0 < len(g.blocks) <= 8 and g.nargs >= 5 and not g.virt and any(isbytes(t) and t.endswith("&") and not t.startswith("const ") for t in g.sty[1:]) and g.cls != MEMT and not g.cls.startswith("std::")

    def delivered(self, P, v, f, i):
        """the array becomes a key: what is written last in it reaches its end"""
        size = fold(self.vsize(P, v)); cov = [c for c in self.cov(P, v) if c[2] != "clear" and c[0][0] == "i"]
        if size[0] != "i" or not cov: return
        self.ctx.count("delivered keys")
        m = max(c[0][1] for c in cov); tail = [c[1] for c in cov if c[0][1] == m]
        if None in tail or any(n[0] != "i" for n in tail): return
        e = m + max(n[1] for n in tail)
        if e < size[1]: self.bad.append((f, i, v, I(m), add(size, I(m), -1), I(e), "delivers as a key", P.data.get(("order",), ())))


def run_C08(ctx):
    p = ctx.p
    ctx.rule = ("Every function that draws bytes from a random generator or entropy provider (and, in context, the functions it serves) is walked with the written parts of its byte arrays: an array it "
                "creates is only read where something was written, each part it has filled with random bytes joins the next written part or ends with the array, and the random bytes are drawn on every path.")
    ctx.assume = ["a function given a non-const array and an offset fills it from there on", "a loop body is judged for one arbitrary turn"]
    sc = Scope(ctx)
    roots = sorted(n for n in sc.reach if n in sc.direct or True)
    tops = [n for n in roots if not (sc.callers.get(n, set()) - {n})]
    need = must_draw(ctx, sc)
    for n in tops:
        f = p.funcs[n]
        ctx.count("functions that draw random bytes"); ctx.sample(short(f))
        x = Fill(ctx, sc, f)
        rs = x.run(f, [("arg", k) for k in range(f.nargs)])
        if n in need:
            for kind, P, v in rs:
                if kind == "ret" and not any(e[0] == "fill" for e in P.ev) and not unknown_set(P): ctx.report(f"C08:{short(f)}:undrawn", f"{f.relfile}:{f.line}", f"{short(f)} can return without drawing random bytes"); break
        for g, i, v, off, ln, e, what, order in x.bad:
            if x.looped(v, order): continue
            ctx.report(f"C08:{short(g)}:{show(v)}", i.where, f"{short(g)} {what} {show(ln)} bytes at {show(off)} of an array of which only the bytes up to {show(e)} were written")
        ends(ctx, x, f, rs)


DRAW = [("CEX::Asymmetric::Sign::IAsymmetricSigner", "Generate", 1), ("CEX::Asymmetric::Encrypt::IAsymmetricCipher", "Generate", 1), ("CEX::Asymmetric::Encrypt::IAsymmetricCipher", "Encapsulate", 0),
        ("CEX::Asymmetric::Encrypt::IAsymmetricKeyExchange", "Generate", 1), ("CEX::Prng::IPrng", "Reset", 0)]
DETERMINISTIC = {("ECDH", "Encapsulate")}  # a static key agreement: its secret comes from the two keys


def must_draw(ctx, sc):
    p = ctx.p; need = set()
    for base, nm, n in DRAW:
        for c in sorted(p.subs.get(base, ())):
            if (c.split("::")[-1], nm) in DETERMINISTIC: continue
            for f in p.methods(c, nm):
                if not f.blocks or not f.virt or n and f.nargs != n: continue
                ctx.count("functions that must draw"); need.add(f.name)
                if f.name not in sc.reach: ctx.report(f"C08:{short(f)}:undrawn", f"{f.relfile}:{f.line}", f"{short(f)} draws no random bytes")
    ctx.floor("functions that must draw", 12)
    return need


def unknown_set(P):
    """the path of a parameter set none of the known ones equals: constructors refuse it"""
    cs = [t for c, t in P.cond.items() if c[0] == "cmp" and c[1] == "eq" and mentions(c[2], lambda q: q[0] == "fld" and "arameters" in str(q[-1]))]
    return bool(cs) and not any(cs)


def syms(e): return [t[0] for t in e[2]] if e[0] == "lin" else [e]


def ends(ctx, x, f, rs):
    for kind, P, v in rs:
        if kind != "ret": continue
        for key in [k for k in P.data if k[0] == "cov"]:
            arr = key[1]; cov = P.data[key]
            for o, n, k in cov:
                if k != "random" or n is None: continue
                e = fold(add(o, n)); size = x.vsize(P, arr)
                if e == fold(size): continue
                rest = [c for c in cov if c != (o, n, k)]
                if any(c[0] == e for c in rest) or (o, e) in P.data.get(("used", arr), ()): continue
                if size[0] == "lin" and not any(mentions(e, lambda q: q == s) for s in syms(size)): continue
                if not x.local(P, arr) and fold(size)[0] != "i" and not any(not x.le(P, c[0], o) for c in rest): continue
                ctx.report(f"C08:{short(f)}:{show(arr)}:end", f"{f.relfile}:{f.line}", f"{short(f)} leaves a gap after the {show(n)} random bytes at {show(o)} of an array of {show(size)} bytes")
