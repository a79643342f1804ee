"""C18 random values are uniform over their range and no random byte is given out twice."""
import ir, sym
from ir import I, add, show, mentions
from sym import VecSym, Path, fold, subst, known, nonneg, entails
from frontend import Broken

WIDTH = {"short": (16, True), "unsigned short": (16, False), "int": (32, True), "unsigned int": (32, False), "long long": (64, True), "unsigned long long": (64, False)}
MEMT = "CEX::Tools::MemoryTools"


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


class Bounded(VecSym):
    """one call of Next() is one sample"""
    cut = 2

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts and len(ts) == 1 else None
        if g is None: return None
        if g.cls == self.cls and g.base_nm.startswith("Next") and g.nargs == 1:
            v = P.fresh("sample"); P.ev.append((v, g)); return [(P, v)]
        return self.std(P, f, i, g, args)

    def inline(self, g, args, P): return (g.cls == self.cls or g.cls.startswith("std::numeric_limits") or not g.cls and g.relfile.startswith("CEX/")) and not g.sret


def run_C18(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("Each bounded function returns Minimum + (sample mod N), N the number of values in the range, of a sample that this call drew, and only when the path established 0 <= sample < k*N "
                "(the largest multiple of N, so every remainder is equally likely); rejected samples are not used. Each unbounded function converts a freshly and completely generated array of the "
                "result's own width. The buffered generators deliver consecutive unused bytes of their buffer, refill it completely before reusing it, advance the position past what was delivered, "
                "and fill the caller's whole range.")
    ctx.assume = ["Maximum - Minimum + 1 fits the integer type", "the provider's output is uniform"]
    bounded(ctx); unbounded(ctx); buffered(ctx)
    ctx.floor("bounded functions", 10); ctx.floor("unbounded functions", 8); ctx.floor("buffered generators", 4)


def multiple(e, n, top, bits):
    """e is a multiple of n and not above top+1"""
    if e[0] == "lin" and e[1] < 0: e = ("lin", e[1] + (1 << bits)) + tuple(e[2:])          # arithmetic modulo the word size
    # M - M % n
    if e[0] == "lin":
        c, ts = e[1], e[2]
        if len(ts) == 1 and ts[0][1] == -1 and ts[0][0][0] == "rem" and ts[0][0][1] == I(c) and ts[0][0][2] == n and 0 < c <= top: return True
        # (M / n) * n
    if e[0] == "mul":
        for a, b in ((e[1], e[2]), (e[2], e[1])):
            if b == n and a[0] == "div" and a[2] == n and a[1][0] == "i" and 0 < a[1][1] <= top + 1: return True
    return False


def clean(e, bits):
    """-1 is the largest value of an unsigned type"""
    return subst(e, {I(-1): I((1 << bits) - 1)})


def bounded(ctx):
    p = ctx.p
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not (f.in_cex and f.base_nm.startswith("Next") and f.nargs in (2, 3) and f.rt in ("i16", "i32", "i64")): continue
        t = f.sty[0].replace("const ", "")
        if t not in WIDTH or any(x.replace("const ", "") != t for x in f.sty[2:]): continue
        bits, signed = WIDTH[t]; top = (1 << (bits - (1 if signed else 0))) - 1
        ctx.count("bounded functions"); nm = f"{short(f)}({t}{', min' if f.nargs == 3 else ''})"; ctx.sample(nm)
        bad = lambda k, m: ctx.report(f"C18:{short(f)}:{bits}{'s' if signed else 'u'}:{f.nargs}:{k}", f"{f.relfile}:{f.line}", f"{nm} {m}")
        x = Bounded(p, ctx.ex); x.cls = f.cls
        mx = ("arg", 1); mn = ("arg", 2) if f.nargs == 3 else I(0)
        n = add(add(mx, mn, -1), I(1)) if f.nargs == 3 else mx
        rets = 0
        for kind, P, v in x.run(f, [("arg", k) for k in range(f.nargs)]):
            if kind != "ret": continue
            rets += 1; ctx.count("return paths")
            r = add(v, mn, -1)
            if r[0] != "rem" or clean(r[2], bits) != n: bad("value", f"returns {show(v)}, not Minimum + sample mod {show(n)}"); break
            s = r[1]
            if s not in [e[0] for e in P.ev]: bad("sample", f"reduces {show(s)}, which is not a fresh sample"); break
            if s != P.ev[-1][0]: bad("sample", "returns a sample that was rejected"); break
            up = low = False
            for c, tr in P.cond.items():
                while c[0] == "not": c, tr = c[1], not tr
                if c[0] != "cmp": continue
                op, a, b = c[1], c[2], c[3]
                if b == s: a, b, op = b, a, sym.FLIP[op]
                if a != s: continue
                k = op[1:] if op[0] in "us" else op
                if not tr: k = {"lt": "ge", "ge": "lt", "le": "gt", "gt": "le"}.get(k, k)
                if op[0] != ("s" if signed else "u") and op[0] in "us" and k in ("lt", "le") and signed: low = True     # an unsigned comparison excludes negative values too
                if k == "lt" and multiple(clean(b, bits), n, top, bits): up = True
                if k == "le" and multiple(clean(add(b, I(1)), bits), n, top, bits): up = True
                if (k == "ge" and b == I(0)) or (k == "gt" and b == I(-1)): low = True
            if not up: bad("bias", "accepts a sample that is not below a multiple of the range: small results are more likely"); break
            if signed and not low: bad("negative", "accepts negative samples, whose remainder is not uniform over the range"); break
        if not rets: bad("never", "never returns")


class Plain(VecSym):
    cut = 2

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts and len(ts) == 1 else None
        nm = g.base_nm if g is not None else (self.p.vname(i) if ts else None)
        if nm in ("Generate", "Fill") and g is not None and (g.cls.startswith("CEX::Prng") or g.cls.startswith("CEX::Provider")) or (g is None and ts and nm in ("Generate", "Fill")):
            a = list(args)
            off, ln = (a[2], a[3]) if len(a) >= 4 else (I(0), self.vsize(P, a[1]))
            P.ev.append(("fill", a[1], off, ln)); return [(P, None)]
        if g is None: return None
        if g.base_nm.startswith(("To", "LeBytesTo", "BeBytesTo")) and g.cls in ("CEX::IO::BitConverter", "CEX::Tools::IntegerTools"):
            return [(P, ("conv", args[0], args[1] if len(args) > 1 else I(0), g.rt, len(P.ev)))]
        if g.cls == MEMT and g.base_nm in ("CopyToObject", "CopyToValue"):
            P.mem[args[2]] = ("conv", args[0], args[1], args[3], len(P.ev)); return [(P, None)]
        return self.std(P, f, i, g, args)

    def inline(self, g, args, P): return False


BITS = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "double": 8}


def unbounded(ctx):
    p = ctx.p
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not (f.in_cex and f.base_nm.startswith("Next") and f.nargs == 1 and f.rt in BITS and f.cls.startswith(("CEX::Prng", "CEX::Provider"))): continue
        ctx.count("unbounded functions"); w = BITS[f.rt]; nm = short(f)
        bad = lambda k, m: ctx.report(f"C18:{nm}:{k}", f"{f.relfile}:{f.line}", f"{nm} {m}")
        x = Plain(p, ctx.ex); n = 0
        for kind, P, v in x.run(f, [("arg", 0)]):
            if kind != "ret": continue
            n += 1
            if v is None or v[0] != "conv": bad("value", f"returns {show(v) if v else 'nothing'}, not a conversion of generated bytes"); break
            ln = v[3] if isinstance(v[3], tuple) else I(BITS.get(v[3], 0))
            if ln != I(w) or v[2] != I(0): bad("width", f"converts {show(ln)} bytes at {show(v[2])} into a {w} byte result"); break
            fl = [e for e in P.ev[:v[4]] if e[0] == "fill" and e[1] == v[1]]
            if not fl or fl[-1][2] != I(0) or not nonneg(add(fl[-1][3], I(w), -1)) or nonneg(add(I(w - 1), x.vsize(P, v[1]), -1)): bad("fill", f"converts {w} bytes that were not all generated"); break
        if not n: bad("never", "never returns")


class Buffer(VecSym):
    """deliveries from, and refills of, the member Buffer"""
    cut = 4

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts and len(ts) == 1 else None
        nm = g.base_nm if g is not None else (self.p.vname(i) if ts else None)
        if nm == "Generate" and (g is None or not (g.cls == self.fn.cls)):
            off, ln = (args[2], args[3]) if len(args) >= 4 else (I(0), self.vsize(P, args[1]))
            P.ev.append(("fill", args[1], fold(off), fold(ln), i.where)); return [(P, None)]
        if nm in ("SecureMove", "SecureCopy", "Copy", "Move") and len(args) >= 5:
            P.ev.append(("move",) + tuple(fold(a) for a in args[:5]) + (i.where,)); return [(P, None)]
        if g is None: return None
        return self.std(P, f, i, g, args)

    def inline(self, g, args, P): return g.cls == self.fn.cls and g.base_nm != self.fn.base_nm or g.cls == "" and g.relfile == self.fn.relfile


def buffered(ctx):
    p = ctx.p
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.in_cex or not f.cls.startswith("CEX::Prng") or f.base_nm != "Generate" or f.nargs < 4: continue
        x = Buffer(p, ctx.ex); x.fn = f
        rs = [(P, v) for k, P, v in x.run(f, [("arg", k) for k in range(f.nargs)]) if k == "ret"]
        isbuf = lambda e: e[0] == "fld" and e[2] == "Buffer"
        if not any(e[0] == "move" and isbuf(e[1]) for P, v in rs for e in P.ev): continue
        ctx.count("buffered generators"); nm = short(f); ctx.sample(nm + str(f.sty[2])[:30])
        out, off, ln = ("arg", 1), ("arg", 2), ("arg", 3)
        kk = "secure" if "ecure" in f.sty[2] else "std"
        bad = lambda k, m, w=None: ctx.report(f"C18:{nm}:{kk}:{k}", w or f"{f.relfile}:{f.line}", f"{nm} {m}")
        done = 0
        for P, v in rs:
            ctx.count("delivery paths"); buf = next((e[1] for e in P.ev if e[0] in ("move", "fill") and isbuf(e[1])), None)
            if buf is None:
                if not entails(P, ir.mul(I(-1), ln)): bad("nothing", "returns on a path without delivering the bytes asked for"); break
                continue
            pos = ("fld", buf[1], "Position"); fresh = ("ld", pos); size = ("size", buf); used = False
            writes = []; ok = True
            for e in P.ev:
                if e[0] == "fill":
                    if e[1] != buf or e[2] != I(0) or e[3] != size: bad("refill", f"refills {show(e[3])} bytes of its buffer at {show(e[2])}, not all of it", e[4]); ok = False; break
                    fresh = I(0); used = True
                    continue
                if e[1] != buf: continue
                if e[2] != fresh: bad("reuse", f"delivers bytes from position {show(e[2])}, the unused ones start at {show(fresh)}", e[6]); ok = False; break
                if not entails(P, add(add(size, fresh, -1), e[5], -1)): bad("beyond", f"delivers {show(e[5])} bytes from position {show(fresh)} without knowing that the buffer holds them", e[6]); ok = False; break
                if e[3] != out: bad("destination", "delivers to another array", e[6]); ok = False; break
                fresh = add(fresh, e[5]); writes.append((e[4], e[5])); used = True; done += 1
            if not ok: break
            end = P.mem.get(pos, ("ld", pos))
            if used and fold(end) != fold(fresh): bad("position", f"leaves the position at {show(end)}, the unused bytes start at {show(fresh)}"); break
            goal = add(off, ln); reach = {off}
            for _ in writes:
                for a, n in writes:
                    if any(fold(a) == fold(r) for r in reach): reach.add(fold(add(a, n)))
            if fold(goal) not in {fold(r) for r in reach}: bad("gap", "does not fill the caller's whole range"); break
        ctx.count("deliveries", done)
