"""C07 entropy providers: refuse to run when unavailable or failing their self test, and never deliver bytes no source produced."""
import ir, sym
from ir import I, add, show, root, mentions
from sym import LoopSym, VecSym, fold, entails, subst
from frontend import Broken
from rules.guards import GateX, short, allbases, arr_params
from rules.aead import flags_of, evs

PROV = "CEX::Provider::IProvider"
SELF = "CEX::Provider::ProviderSelfTest"
MEMT = "CEX::Tools::MemoryTools"


class PvdX(GateX):
    """the self test's own verdict is the flag, the code around it is walked"""

    def inline(self, fn, i, args, st): return fn.cls != SELF and super().inline(fn, i, args, st)

    def relevant(self, e):
        if e[0] == "c" and e[1] in self.selftests: return "selftest"
        return super().relevant(e)


def providers(p): return sorted(c for c in p.subs.get(PROV, ()) if any(f.base_nm == "Generate" and f.blocks for f in p.methods(c)))


def run_C07(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("(1) Every Generate overload of every entropy provider, explored with the availability flag false or the continuous self test failing, throws and writes nothing; no "
                "handler inside it turns an exception into a normal return. (2) The self test gets a sample that the provider's own source filled, and it answers false for a sample equal to "
                "the previous one and remembers the new one. (3) The raw sources write only bytes a successful hardware/system call produced and return only when the whole length was written.")
    ctx.assume = ["the system generator and the rdrand/rdseed instructions report their own failures", "a context CryptAcquireContext reports as acquired is not null"]
    selftests = {f.name for f in p.methods(SELF, "SelfTest")}
    if not selftests: raise Broken("ProviderSelfTest::SelfTest is missing")
    for c in providers(p):
        ctx.count("providers"); flags = dict(flags_of(p, ex, c))
        for g in p.funcs.values():
            if g.base_nm == "IsAvailable" and (g.cls == c or g.cls in allbases(p, c)):
                e = ex.retexpr(g)
                if e is not None: flags[e] = "avail"
                flags[("c", g.name, (("arg", 0),), "bool")] = "avail"
        flags[("m", "IsAvailable", (("arg", 0),), "bool")] = "avail"
        gens = [f for f in p.methods(c, "Generate") if f.virt and f.blocks]
        for f in sorted(gens, key=lambda f: f.name):
            kk = "/".join(t.split("::")[-1][:12] for t in f.sty[2:3]) + f"/{f.nargs - 1}"
            for label, pre in (("unavailable", {("avail", False)}), ("failing its self test", {("avail", True), ("selftest", False)})):
                ctx.count("gated functions")
                x = PvdX(p, ex, f, flags, allbases(p, c)); x.selftests = selftests
                rs = x.explore(f, [("arg", k) for k in range(f.nargs)], frozenset(pre | {("ev", ())}))
                ctx.count("blocks explored", x.n); nthrow = 0
                for kind, st, rv in rs:
                    ctx.count("paths"); outs = [wh for k, a, wh in evs(st) if k == "OUT"]
                    if kind == "ret": ctx.report(f"C07:{short(f)}:{kk}:{label}:runs", f"{f.relfile}:{f.line}", f"{short(f)} returns normally while the provider is {label}")
                    else: nthrow += any(k == "THROW" for k, a, wh in evs(st))
                    if outs: ctx.report(f"C07:{short(f)}:{kk}:{label}:writes", outs[0], f"{short(f)} writes the caller's array while the provider is {label}")
                if not nthrow: ctx.report(f"C07:{short(f)}:{kk}:{label}:nothrow", f"{f.relfile}:{f.line}", f"{short(f)} does not throw while the provider is {label}")
            swallow(ctx, p, c, f)
        sampled(ctx, p, c, gens, selftests)
    ctx.floor("gated functions", 30)
    for n in sorted(selftests): repeats(ctx, p, p.funcs[n])
    system_source(ctx); hardware_source(ctx); jitter_source(ctx)


def closure(p, c, f):
    out, st = {}, [f]
    while st:
        g = st.pop()
        if g.name in out: continue
        out[g.name] = g
        for i in g.calls:
            for t in p.callees(i) or ():
                h = p.funcs.get(t)
                if h is not None and h.cls == c and h.blocks: st.append(h)
    return out


def swallow(ctx, p, c, f):
    for g in closure(p, c, f).values():
        for bi, b in enumerate(g.blocks):
            if any(i.op == "lpad" and i.raw[4] for i in b):
                ctx.count("handlers")
                if any(g.blocks[x][-1].op == "ret" for x in g.reach(bi)): ctx.report(f"C07:{short(g)}:swallow", b[0].where, f"{short(g)} catches an exception while producing output and carries on")


class Sampler(VecSym):
    cut = 3

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts and len(ts) == 1 else None
        if g is None: return None
        if g.name in self.selftests: P.ev.append(("test", args[1], i.where, self.vsize(P, args[1]))); return None
        r = self.std(P, f, i, g, args)
        if r is not None: return r
        if g.cls == self.fn.cls and g.name in self.gen:
            for n, a in enumerate(args):
                if a[0] == "el" and n + 1 < len(args): P.ev.append(("fill", a[1], a[2], args[n + 1], g.name)); break
                if a in P.size:
                    off, ln = (args[n + 1], args[n + 2]) if n + 2 < len(args) else (I(0), P.size[a])
                    P.ev.append(("fill", a, off, ln, g.name)); break
            return [(P, None)]
        if g.cls == MEMT or g.base_nm in ("SecureMove", "SecureClear"):
            for n, a in enumerate(args):
                if a in P.size: P.ev.append(("other", a))
        return None

    def inline(self, g, args, P): return False


def sampled(ctx, p, c, gens, selftests):
    """the sample the self test gets was filled by the function that also serves the caller"""
    direct = [f for f in p.methods(c) if f.blocks and any((p.callees(i) or (None,))[0] in selftests for i in f.calls)]
    if not direct: ctx.report(f"C07:{c}:untested", "", f"{c} never runs the continuous self test"); return
    serve = set.intersection(*[set(closure(p, c, f)) for f in gens])
    for f in direct:
        ctx.count("self tests"); x = Sampler(p, ctx.ex); x.fn = f; x.selftests = selftests
        x.gen = {n for n in serve if p.funcs[n].base_nm == "Generate" or p.funcs[n].base_nm.startswith("Gen")} - {f.name}
        bad = lambda k, m: ctx.report(f"C07:{short(f)}:{k}", f"{f.relfile}:{f.line}", f"{short(f)} {m}")
        n = 0
        for kind, P, v in x.run(f, [("arg", k) for k in range(f.nargs)]):
            for k, e in enumerate(P.ev):
                if e[0] != "test": continue
                n += 1; last = [q for q in P.ev[:k] if q[0] in ("fill", "other") and q[1] == e[1]]
                if not last or last[-1][0] != "fill": bad("unfilled", "tests a sample the provider's source did not fill"); break
                if last[-1][2] != I(0) or fold(last[-1][3]) != fold(e[3]): bad("partial", f"tests a sample of {show(e[3])} bytes of which the source filled {show(last[-1][3])}"); break
        if not n: bad("never", "never runs the self test")


class SameSample(VecSym):
    """SelfTest with the new sample equal to the stored one: vectors are versioned, parts of them compare equal while they still have their first content"""
    MAXLOOP = 70

    def isv(self, P, a): return a == ("arg", 1) or a == self.store_

    def part(self, P, v, off, ln): return ("part", P.data.get(v, v), off, ln)

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts and len(ts) == 1 else None
        if g is None: return None
        if g.cls == MEMT or g.cls == "CEX::Tools::IntegerTools" or g.base_nm.startswith("Secure"):
            nm = g.base_nm
            if nm in ("CopyToValue", "CopyToObject"): P.mem[args[2]] = self.part(P, args[0], args[1], args[3]); return [(P, None)]
            if nm in ("Copy", "SecureCopy", "SecureMove", "Move") and len(args) >= 5:
                self.vcopy(P, args[0], args[1], args[2], args[3], args[4], f, i)
                if nm in ("SecureMove", "Move"): P.data[args[0]] = ("zero",)
                return [(P, None)]
            if nm in ("Clear", "SecureClear"): P.data[args[0]] = ("zero",); return [(P, None)]
            if nm in ("Compare", "Verify", "SecureCompare") and len(args) >= 5:
                a, b = self.part(P, args[0], args[1], args[4]), self.part(P, args[2], args[3], args[4])
                return [(P, self.same(a, b) or P.fresh("i1"))]
            if nm.startswith(("LeBytesTo", "BeBytesTo")): return [(P, self.part(P, args[0], args[1], I(8)))]
        return self.std(P, f, i, g, args)

    def same(self, a, b):
        if a[0] == b[0] == "part" and {a[1], b[1]} == {("arg", 1), self.store_} and a[2:] == b[2:] and a[3] != I(0): return ("T",)
        return None

    def vcopy(self, P, src, soff, dst, doff, n, f, i):
        if soff == doff == I(0): P.data[dst] = P.data.get(src, src)
        else: P.data[dst] = P.fresh("mix")

    def load(self, P, a):
        if a[0] == "el" and a[1] in (("arg", 1), self.store_): return self.part(P, a[1], a[2], I(1))
        return None

    def store(self, P, a, v, f, i):
        if a[0] == "el" and a[1] in (("arg", 1), self.store_):
            if v[0] == "part" and v[2] == a[2]: P.data[a[1]] = v[1]
            else: P.data[a[1]] = ("zero",)
            return True
        return False

    def decide(self, P, c):
        if c[0] == "cmp" and c[1] in ("eq", "ne") and self.same(c[2], c[3]): return c[1] == "eq"
        if c[0] == "cmp" and c[2] in (("size", ("arg", 1)), ("size", self.store_)) and c[3] == I(8): return ir.cmpc(c[1], 8, 8)
        return None

    def vsize(self, P, v): return I(8) if v in (("arg", 1), self.store_) else super().vsize(P, v)

    def inline(self, g, args, P): return g.cls == SELF


def repeats(ctx, p, f):
    x = SameSample(p, ctx.ex); x.store_ = ("fld", ("arg", 0), "m_rndSample"); n = 0
    bad = lambda k, m: ctx.report(f"C07:SelfTest:{k}", f"{f.relfile}:{f.line}", f"{short(f)} {m}")
    for kind, P, v in x.run(f, [("arg", 0), ("arg", 1)]):
        if kind != "ret": continue
        n += 1; ctx.count("self test paths")
        if v is not None and v[0] == "i": v = ("T",) if v[1] else ("F",)
        if v is not None and v[0] == "not": v = {("T",): ("F",), ("F",): ("T",)}.get(v[1], v)
        if v is not None and v[0] == "cmp":
            d = x.decide(P, v); v = v if d is None else (("T",) if d else ("F",))
        if v != ("F",): bad("repeat", "can accept a sample equal to the previous one"); break
    x = SameSample(p, ctx.ex); x.store_ = ("fld", ("arg", 0), "m_rndSample"); x.decide = lambda P, c: None
    for kind, P, v in x.run(f, [("arg", 0), ("arg", 1)]):
        if kind == "ret" and P.data.get(x.store_, x.store_) != ("arg", 1): bad("forget", "does not keep the new sample for the next comparison"); break
    if not n: bad("never", "never returns")


# ------------------------------------------------------------------ raw sources
class Raw(LoopSym):
    """writes to the output range, and the facts that make them good"""
    out = None

    def enter(self, P, f, bi, pred, env):
        r = super().enter(P, f, bi, pred, env)
        if r is None and any(l["h"] == bi and pred not in l["bl"] for l in f.loops): P.ev.append(("head", (f.name, bi)))
        return r

    def at(self, a):
        if a == self.out: return I(0)
        if a[0] in ("el", "off") and a[1] == self.out: return a[2] if a[0] == "el" else I(a[2])
        return None

    def store(self, P, a, v, f, i):
        n = self.at(a)
        if n is None: return False
        P.ev.append(("w", n, I({"i8": 1, "i16": 2, "i32": 4, "i64": 8}.get(i.raw[3], 1)), v, i.where)); return True

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts and len(ts) == 1 else None
        if g is None: return None
        if g.cls == MEMT and g.base_nm in ("Copy", "CopyFromValue", "CopyFromObject"):
            for n, a in enumerate(args):
                if self.at(a) is not None:
                    rest = args[n + 1:]; off = rest[0] if len(rest) > 1 else I(0)
                    src = P.mem.get(args[0], args[0]) if n else I(0)
                    P.ev.append(("w", add(self.at(a), off), rest[-1], src, i.where)); return [(P, None)]
        return self.std(P, f, i, g, args)

    def inline(self, g, args, P): return g.in_cex and any(self.at(a) is not None for a in args)


def covered(P, x, f, frm, m=None):
    """the end of the gapless run of writes that starts at frm, counting the loops that were left on this path"""
    ws = [(e[1], e[2]) for e in P.ev if e[0] == "w"]
    for key in P.data.get(("order",), ()):
        bi = key[1:]; turns = [t for t in x.turns if (t[0].name, t[1]) == bi]
        for t in turns:
            ind = [(k, v) for k, v in t[3].items() if v[2] == add(v[1], I(1)) and v[0] == I(0)]
            ws2 = [e for e in t[2].ev[max([n for n, e in enumerate(t[2].ev) if e == ("head", bi)] + [0]):] if e[0] == "w"]
            for k, v in ind:
                w = [e for e in ws2 if mentions(e[1], lambda q: q == v[1]) and not mentions(add(e[1], v[1], -1), lambda q: q == v[1])]
                if len(w) == 1 and w[0][2] == I(1) and all(any(e[0] == "w" and e[1] == w[0][1] for e in u[2].ev) for u in turns):
                    ws.append((add(w[0][1], v[1], -1), v[1]))
    end = frm
    for _ in ws:
        for a, n in ws:
            if fold(a) == fold(end): end = fold(add(a, n))
    return end


def fill_loop(ctx, p, f, x, out, ln, good, tag):
    """every return path of f wrote out[0..ln) without a gap, with bytes `good` accepts"""
    bad = lambda k, m, w=None: ctx.report(f"C07:{short(f)}:{k}", w or f"{f.relfile}:{f.line}", f"{short(f)} {m}")
    x.out = out
    rs = x.run(f, [("arg", k) for k in range(f.nargs)])
    ctx.count("raw source paths", len(rs) + len(x.turns)); ctx.sample(short(f) + " (" + tag + ")")
    for P in [P for k, P, v in rs if k == "ret"] + [t[2] for t in x.turns]:
        for n, e in enumerate(P.ev):
            if e[0] == "w" and not good(P, n, e): bad("unsourced", "writes a byte that did not come from a successful reading of its source", e[4]); return
    tops = [t for t in x.turns if t[0] is f and not any(t[1] in l["bl"] and l["h"] != t[1] for l in f.loops)]
    facts = {}  # per header: (position unknown, relation)
    for bi in {t[1] for t in tops}:
        ts = [t for t in tops if t[1] == bi]; keys = set.intersection(*[set(t[3]) for t in ts])
        for o in keys:
            if any(t[3][o][0] != I(0) for t in ts): continue
            rel = {}
            for k in keys - {o}:
                tot = {add(t[3][o][0], t[3][k][0]) for t in ts}
                if len(tot) == 1 and all(fold(add(add(t[3][o][2], t[3][k][2]), add(t[3][o][1], t[3][k][1]), -1)) == I(0) for t in ts): rel[ts[0][3][k][1]] = add(next(iter(tot)), ts[0][3][o][1], -1)
            if all(entails(t[2], add(covered(t[2], x, f, t[3][o][1]), t[3][o][2], -1)) for t in ts): facts[bi] = (ts[0][3][o][1], rel)
        if bi not in facts: bad("gap", "advances over bytes of the output that it did not write", f.blocks[bi][0].where); return
    n = 0
    for kind, P, v in rs:
        if kind != "ret": continue
        n += 1; m = {}; start = I(0)
        for key in P.data.get(("order",), ()):
            if key[1] == f.name and key[2] in facts: start, m = facts[key[2]][0], facts[key[2]][1]
        end = covered(P, x, f, start)
        if not entails(P, subst(add(end, ln, -1), m) if m else add(end, ln, -1), m): bad("short", "returns before the whole output was filled"); return
    if not n: bad("never", "never returns")


def xv_good(x, ok):
    def good(P, n, e):
        hit = []
        mentions(e[3], lambda q: q[0] == "xv" and q[2] == 0 and bool(hit.append(q[1]) or False))
        return bool(hit) and all(ok(P, h) for h in hit)
    return good


def hardware_source(ctx):
    p = ctx.p
    fs = [f for f in p.funcs.values() if f.in_cex and any(isinstance(i.callee, str) and i.callee.startswith(("g:llvm.x86.rdseed", "g:llvm.x86.rdrand")) for i in f.calls)]
    fs = [f for f in fs if f.cls.startswith("CEX::Provider")]
    if not fs: raise Broken("no function of the providers reads rdrand or rdseed")
    for f in fs:
        ctx.count("raw sources"); x = Raw(p, ctx.ex)
        out = [k for k, t in f.param_types_static() if t.endswith("*") and not t.startswith("const") and "char" in t]
        ln = [k for k, t in f.param_types_static() if t in ("unsigned long long", "const unsigned long long")]
        if len(out) != 1 or len(ln) != 1: raise Broken(f"{short(f)}: the output range is not a pointer and a length")

        def ok(P, h):
            for c, t in P.cond.items():
                if c[0] == "not": c, t = c[1], not t
                if c[0] == "cmp" and c[3] == I(1) and (c[1] == "eq") == t and c[1] in ("eq", "ne") and mentions(c[2], lambda q: q == ("xv", h, 1)): return True
                if c[0] == "cmp" and c[3] == I(0) and (c[1] == "ne") == t and c[1] in ("eq", "ne") and mentions(c[2], lambda q: q == ("xv", h, 1)): return True
            return False
        fill_loop(ctx, p, f, x, ("arg", out[0]), ("arg", ln[0]), xv_good(x, ok), "rdrand/rdseed")


class Sys(VecSym):
    cut = 3

    def call(self, P, f, i, ts, args):
        nm = i.callee[2:] if isinstance(i.callee, str) else ""
        if nm.startswith("CryptAcquireContext"):
            r = P.fresh("acquired"); P.mem[args[0]] = ("hnd", r); return [(P, r)]
        if nm == "CryptGenRandom":
            r = P.fresh("generated"); P.ev.append(("gen", args, r)); return [(P, r)]
        g = self.p.funcs.get(ts[0]) if ts and len(ts) == 1 else None
        return None if g is None else self.std(P, f, i, g, args)

    def decide(self, P, c):
        if c[0] == "cmp" and c[1] in ("eq", "ne") and c[3] == I(0) and c[2][0] == "hnd":
            if self.truth(P, ("cmp", "ne", c[2][1], I(0))) is True: return c[1] == "ne"
        return None

    def inline(self, g, args, P): return g.cls == self.fn.cls and g.base_nm != "Generate"


def system_source(ctx):
    p = ctx.p
    fs = [f for f in p.funcs.values() if f.in_cex and any(i.callee == "g:CryptGenRandom" for i in f.calls)]
    if not fs: raise Broken("no caller of CryptGenRandom")
    for f in fs:
        ctx.count("raw sources"); x = Sys(p, ctx.ex); x.fn = f; n = 0; ctx.sample(short(f) + " (CryptGenRandom)")
        bad = lambda k, m: ctx.report(f"C07:{short(f)}:{k}", f"{f.relfile}:{f.line}", f"{short(f)} {m}")
        out = [k for k, t in f.param_types_static() if t.endswith("*") and "char" in t]; ln = [k for k, t in f.param_types_static() if t.endswith("unsigned long long")]
        if len(out) != 1 or len(ln) != 1: raise Broken(f"{short(f)}: the output range is not a pointer and a length")
        for kind, P, v in x.run(f, [("arg", k) for k in range(f.nargs)]):
            if kind != "ret": continue
            n += 1; ctx.count("raw source paths")
            if entails(P, ir.mul(I(-1), ("arg", ln[0]))) or x.truth(P, ("cmp", "eq", ("arg", ln[0]), I(0))) is True: continue
            g = [e for e in P.ev if e[0] == "gen"]
            if not g: bad("skip", "returns without asking the system for random bytes"); break
            a, r = g[-1][1], g[-1][2]
            if x.truth(P, ("cmp", "ne", r, I(0))) is not True: bad("unchecked", "returns normally although the system generator may have failed"); break
            if a[0][0] != "hnd": bad("handle", "uses a context that was not acquired"); break
            if a[2] != ("arg", out[0]) or not whole(a[1], ("arg", ln[0])): bad("range", f"asks the system for {show(a[1])} bytes, not for the whole range"); break
        if not n: bad("never", "never returns")


def whole(e, ln): return e == ln or e[0] in ("trunc", "cast", "zext") and mentions(e, lambda q: q == ln)


# ------------------------------------------------------------------ the jitter provider
class Jit(Raw):
    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts and len(ts) == 1 else None
        if g is not None and g.cls == self.cls and g.name != f.name and (g in self.parts or not any(self.at(a) is not None for a in args)):
            v = P.fresh(g.base_nm); P.ev.append(("call", g, v, i.where, tuple(args))); return [(P, v if i.raw[3] != "void" else None)]
        if g is not None and g.base_nm == "TimeStamp": v = P.fresh("stamp"); P.ev.append(("stamp", v)); return [(P, v)]
        return super().call(P, f, i, ts, args)

    def summarize(self, P, f, l): return self.all or not l["bt"].isdigit()
    all = False
    parts = ()

    def forget(self, P, f, l): P.mem = {k: v for k, v in P.mem.items() if k[0] == "up"}


def true_(P, x, v): return x.truth(P, v) is True or x.truth(P, ("cmp", "ne", v, I(0))) is True
def false_(P, x, v): return x.truth(P, v) is False or x.truth(P, ("cmp", "eq", v, I(0))) is True


def jitter_source(ctx):
    p, ex = ctx.p, ctx.ex; cls = "CEX::Provider::CJP"
    def need(nm, sel=lambda f: True):
        fs = [f for f in p.methods(cls, nm) if f.blocks and sel(f)]
        if len(fs) != 1: raise Broken(f"CJP::{nm}: expected one function, found {len(fs)}")
        return fs[0]
    ptr = need("Generate", lambda f: any(t.endswith("char*") for t in f.sty)); word = need("Generate", lambda f: f.nargs == 1)
    check, measure, stuck = need("TimerCheck"), need("MeasureJitter"), need("StuckCheck")
    ctx.count("raw sources")
    # the output loop: a fresh word before every group of bytes, after the timer passed its test
    x = Jit(p, ex); x.cls = cls; x.parts = (ptr, word, check, measure, stuck)

    def good(P, n, e):
        st = max([k for k, q in enumerate(P.ev[:n]) if q[0] == "head" and q[1][0] == ptr.name and not any(q[1][1] in m["bl"] and m["h"] != q[1][1] for m in ptr.loops)] + [0])
        if not any(q[0] == "call" and q[1] is word for q in P.ev[st:n]): return False
        if not any(q[0] == "call" and q[1] is check and true_(P, x, q[2]) for q in P.ev[:n]): return False
        return mentions(e[3], lambda q: q[0] == "fld" and q[-1] == "RandomState")
    pos = {k for k, t in ptr.param_types_static() if t.endswith("char*")}; ln = {k for k, t in ptr.param_types_static() if t.endswith("long long")}
    fill_loop(ctx, p, ptr, x, ("arg", pos.pop()), ("arg", ln.pop()), good, "jitter")
    # one word: at least 64 * OverSampleRate measurements that were not stuck
    x = Jit(p, ex); x.cls = cls; x.parts = (ptr, word, check, measure, stuck); bad = lambda k, f, m: ctx.report(f"C07:{short(f)}:{k}", f"{f.relfile}:{f.line}", f"{short(f)} {m}")
    rs = x.run(word, [("arg", 0)]); ok = False; heads = {t[1] for t in x.turns}
    rate = lambda e: mentions(e, lambda q: q[0] == "fld" and q[-1] == "OverSampleRate")
    for bi in heads:
        ts = [t for t in x.turns if t[1] == bi]
        for k in set.intersection(*[set(t[3]) for t in ts]):
            if any(t[3][k][0] != I(0) for t in ts): continue
            def rise(P, to):
                at = max([n for n, e in enumerate(P.ev) if e == ("head", (word.name, bi))] + [0])
                return len([e for e in P.ev[at:] if e[0] == "call" and e[1] is measure and false_(P, x, e[2])]), add(to, ts[0][3][k][1], -1)
            def fine(P, to):
                n, d = rise(P, to); return d[0] == "i" and 0 <= d[1] <= n
            if not all(fine(t[2], t[3][k][2]) for t in ts): continue
            u = ts[0][3][k][1]; good_ = True; n = 0
            for kind, P, v in rs:
                if kind != "ret": continue
                n += 1; hit = False
                for d in sym.known(P):
                    # u + a - 64 * rate >= 0
                    lo = [t for t in (d[2] if d[0] == "lin" else ()) if rate(t[0])]
                    uk = [t for t in (d[2] if d[0] == "lin" else ()) if t[0] == u]
                    if len(lo) == 1 and len(uk) == 1 and lo[0][1] <= -64 and uk[0][1] == 1 and fine(P, add(u, I(d[1]))): hit = True
                    if len(lo) == 1 and len(uk) == 1 and lo[0][1] == -1 and uk[0][1] == 1 and times64(lo[0][0]) and fine(P, add(u, I(d[1]))): hit = True
                good_ &= hit
            ok |= good_ and n > 0
    ctx.count("jitter loops", len(heads))
    if not ok: bad("oversample", word, "can return before 64 * OverSampleRate measurements were taken that are not stuck")
    # a measurement is the time that passed since the previous one, judged by the stuck test
    x = Jit(p, ex); x.cls = cls; x.parts = (ptr, word, check, measure, stuck)
    for kind, P, v in x.run(measure, [("arg", 0)]):
        if kind != "ret": continue
        prev = [a for a in P.mem if a[0] == "fld" and a[-1] == "PreviousTime"]
        cs = [e for e in P.ev if e[0] == "call" and e[1] is stuck]
        t = [e for e in P.ev if e[0] == "call" and e[1].base_nm == "GetTime" or e[0] == "stamp"]
        if len(cs) != 1 or v is None or not (v == cs[0][2] or v == fold(("cmp", "ne", cs[0][2], I(0)))): bad("verdict", measure, "does not return the stuck test's verdict"); break
        if not t or not prev or P.mem[prev[0]] not in [e[2] if e[0] == "call" else e[1] for e in t]: bad("previous", measure, "does not remember the time of the measurement"); break
        if cs[0][4][-1] != add(P.mem[prev[0]], ("ld", prev[0]), -1): bad("delta", measure, "does not judge the time since the previous measurement"); break
        ctx.count("jitter paths")
    # the stuck test: first, second and third difference
    x = Jit(p, ex); x.cls = cls; x.parts = (ptr, word, check, measure, stuck); d = ("arg", stuck.nargs - 1)
    for kind, P, v in x.run(stuck, [("arg", k) for k in range(stuck.nargs)]):
        if kind != "ret": continue
        ctx.count("jitter paths")
        fl = {a[-1]: a for a in list(P.mem) if a[0] == "fld"}
        l1, l2 = fl.get("LastDelta"), fl.get("LastDelta2")
        if l1 is None or l2 is None or P.mem[l1] != d or P.mem[l2] != add(("ld", l1), d, -1): bad("history", stuck, "does not keep the differences the next test needs"); break
        d2 = add(("ld", l1), d, -1); d3 = add(d2, ("ld", l2), -1)
        val = v if v[0] != "i" else (("T",) if v[1] else ("F",))
        if val == ("T",): continue
        zero = lambda e: any(x.truth(P, ("cmp", "eq", q, I(0))) is False for q in (e, ir.mul(I(-1), e))) or differ(P, x, e) or inexpr(val, e)
        for nm, e in (("first", d), ("second", d2), ("third", d3)):
            if not zero(e): bad(nm, stuck, f"can pass a measurement whose {nm} difference is zero"); break
    # the timer test: a zero or unmoving timer fails it
    x = Jit(p, ex); x.cls = cls; x.parts = (ptr, word, check, measure, stuck); x.all = True; n = 0
    for kind, P, v in x.run(check, [("arg", 0)]):
        if kind != "ret" or v in (I(0), ("F",)): continue
        n += 1; ctx.count("jitter paths"); st = [e[1] for e in P.ev if e[0] == "stamp"]
        if any(x.truth(P, ("cmp", "eq", s, I(0))) is True for s in st): bad("zero", check, "passes a timer that returned zero"); break
        if any(any(x.truth(P, ("cmp", "eq", add(a, b, -1), I(0))) is True or x.truth(P, ("cmp", "eq", a, b)) is True for b in st) for a in st if len(st) > 1): bad("still", check, "passes a timer that did not move"); break
    seen = {c for t in x.turns for c in t[2].cond}
    if not x.turns or not n: bad("never", check, "never tests the timer")
    elif not any(c[0] == "cmp" and c[3] == I(0) and c[2][0] == "fresh" and c[2][1] == "stamp" for c in seen): bad("unread", check, "does not look for a timer that returns zero")
    elif not any(c[0] == "cmp" and mentions(c[2], lambda q: q[0] == "fresh" and q[1] == "stamp") and (c[3] == I(0) and c[2][0] == "lin" or c[3][0] == "fresh") and c[1] in ("eq", "ne") for c in seen): bad("unmoved", check, "does not look for a timer that does not move")


def times64(e): return mentions(e, lambda q: q[0] in ("mul",) and I(64) in q)


def differ(P, x, e):
    """e = a - b != 0 known as a != b"""
    if e[0] != "lin" or e[1] != 0 or len(e[2]) != 2: return False
    (a, ka), (b, kb) = e[2]
    return {ka, kb} == {1, -1} and (x.truth(P, ("cmp", "eq", a, b)) is False or x.truth(P, ("cmp", "eq", b, a)) is False)


def inexpr(v, e):
    """the returned value is true when e is zero"""
    return v[0] == "cmp" and v[1] == "eq" and v[2] == e and v[3] == I(0) or v[0] == "or" and any(inexpr(q, e) for q in v[1:] if isinstance(q, tuple))

