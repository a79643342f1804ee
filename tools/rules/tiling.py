"""C13 a request for a range is served byte for byte: each byte of the range is produced once, from the input byte at the same place."""
import math, re
import ir, sym
from ir import I, add, mul, show, mentions
from sym import fold, nonneg
from frontend import Broken
from rules.absorb import Absorb, cge, MEMT, IDX, sub

MODES = "CEX::Cipher::Block::Mode::"
WHOLE = ("ECB", "CBC", "CFB", "OFB")            # whole blocks only
SCOPE = {"ECB": 1, "CBC": 1, "CFB": 1, "OFB": 1, "CTR": 1, "ICM": 1, "GCM": 1, "HBA": 1, "RCS": 1, "RWS": 1, "CSX512": 1, "ChaChaP20": 1, "TSX256": 1, "TSX512": 1, "TSX1024": 1,
         "BCG": 1, "CSG": 1, "HCG": 1, "HKDF": 1, "KDF2": 1, "PBKDF2": 1, "SCBKDF": 1, "SHAKE": 1}
KERNEL = re.compile(r"(Transform|Pem|Perm|Inverse)\w*\d")
CHAINED = ("CBC", "CFB")
FIXED = {"EncryptBlock": 16, "DecryptBlock": 16, "Transform": 16}


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm
def bytevec(t): return "vector<unsigned char" in t and t.rstrip().endswith("&")
def scalar(t): return t.replace("const ", "") in ("unsigned long long", "unsigned long")


def poly(e):
    """sum of products normal form; remainders are written with quotients"""
    if e[0] == "lin":
        acc = I(e[1])
        for t, k in e[2]: acc = add(acc, mul(I(k), poly(t)))
        return acc
    if e[0] == "mul": return prod(poly(e[1]), poly(e[2]))
    if e[0] in ("div", "rem") and len(e) == 3:
        a, b = poly(e[1]), poly(e[2]); q = quot(a, b)
        return q if e[0] == "div" else add(a, prod(b, q), -1)
    return e


def terms(e):
    if e[0] == "i": return [((), e[1])] if e[1] else []
    c, d = ir.lin_of(e)
    return ([((), c)] if c else []) + [(factors(t), k) for t, k in d.items()]


def factors(t): return tuple(factors(t[1]) + factors(t[2])) if t[0] == "mul" else (t,)


def build(fs):
    if not fs: return I(1)
    fs = sorted(fs, key=repr); r = fs[0]
    for t in fs[1:]: r = ("mul", r, t)
    return r


def prod(a, b):
    acc = I(0)
    for fa, ka in terms(a):
        for fb, kb in terms(b): acc = add(acc, mul(I(ka * kb), build(list(fa) + list(fb))))
    return acc


def quot(a, b):
    if a == I(0): return a
    if b[0] == "i" and a[0] == "i" and b[1]: return I(a[1] // b[1])
    if b == I(1): return a
    tb = terms(b)
    if len(tb) == 1:                        # exact division of every term by a product
        fb, kb = tb[0]; acc = I(0); rest = I(0)
        for fa, ka in terms(a):
            l = list(fa); ok = ka % kb == 0
            for t in fb:
                if t in l: l.remove(t)
                else: ok = False
            if ok: acc = add(acc, mul(I(ka // kb), build(l)))
            else: rest = add(rest, mul(I(ka), build(list(fa))))
        if rest == I(0): return acc
        if rest != a: return add(acc, quot(rest, b))
    if a[0] == "div": return quot(a[1], prod(a[2], b))
    return ("div", a, b)


def small(e):
    """e >= 0 over the integers, coefficients without a common divisor"""
    if e[0] != "lin": return e
    g = math.gcd(*(k for _, k in e[2]))
    return e if g == 1 else ir.mk_lin(e[1] // g, {t: k // g for t, k in e[2]})


def two(ks, e):
    """e is a sum of at most two of the facts and something not negative"""
    if nonneg(e) or any(nonneg(add(e, k, -1)) for k in ks): return True
    return any(nonneg(add(add(e, a, -1), b, -1)) for n, a in enumerate(ks) for b in ks[:n + 1])


def divs(e):
    if not isinstance(e, tuple): return
    if len(e) == 3 and e[0] == "div": yield e
    for x in e: yield from divs(x)


class Shape:
    """which parameter is what"""
    def __init__(self, f):
        ts = f.param_types(); self.inp = self.out = self.len = None; used = set()
        for n, (k, t) in enumerate(ts):
            if not bytevec(t): continue
            nxt = ts[n + 1] if n + 1 < len(ts) else None
            if t.startswith("const "):
                if self.inp is None and self.out is None and nxt and scalar(nxt[1]): self.inp = (k, nxt[0]); used.add(nxt[0])
            elif self.out is None and nxt and scalar(nxt[1]): self.out = (k, nxt[0]); used.add(nxt[0])
        if self.out is None: return
        rest = [k for k, t in ts if scalar(t) and k not in used and k > self.out[0]]
        if rest: self.len = rest[-1]


class Flow(Absorb):
    """follows the caller's range through one function"""
    def __init__(self, rule, f, par, reg):
        self.rule = rule; sym.VecSym.__init__(self, rule.ctx.p, rule.ctx.ex); self.ctx = rule.ctx; self.f = f; self.par = par; self.reg = reg
        self.sh = rule.shape(f); self.degree = ("deg",); self.unit = rule.units.get(f.cls, 16); self.posaddr = None; self.posval = I(0); self.block = I(self.unit)
        sh = self.sh
        self.O = ("arg", sh.out[1]); self.L = ("arg", sh.len) if sh.len is not None else None; self.In = ("arg", sh.inp[0]) if sh.inp else None; self.Io = ("arg", sh.inp[1]) if sh.inp else None
        self.Out = ("arg", sh.out[0])
        self.base = []; self.scale = 1

    def large(self): return prod(I(self.unit), prod(self.degree, ("units",)))
    def least(self): return prod(I(self.unit), prod(self.degree, ("wide",)))

    # --- facts
    def given(self):
        out = [add(("deg",), I(-2 if self.par else -1)), add(("units",), I(-1)), add(("wide",), I(-1)), add(self.least(), prod(I(self.unit), self.degree), -1), add(self.large(), self.least(), -1)]
        out.append(add(self.large(), prod(I(self.unit), self.degree), -1))
        if self.L is not None:
            n = mul(I(self.scale), self.L)
            out.append(add(add(("size", self.Out), self.O, -1), n, -1))
            if self.In: out.append(add(add(("size", self.In), self.Io, -1), n, -1))
            if self.rule.whole(self.f) and self.scale == 1:
                r = add(n, prod(I(self.reg), quot(n, I(self.reg))), -1); out += [r, mul(I(-1), r)]
            if self.rule.big(self.f): out.append(add(n, self.large(), -1))
        return out

    def holds(self, P, e):
        """e >= 0 follows: equalities of plain quantities are put in everywhere, quotients get their defining facts, then at most two inequalities are combined"""
        e = poly(e)
        if nonneg(e): return True
        ks = list(dict.fromkeys([poly(k) for k in sym.known(P)] + self.given()))
        for _ in range(8):
            s = set(ks); m = None
            for k in ks:
                if k[0] != "lin" or mul(I(-1), k) not in s: continue
                t = next(((t, n) for t, n in k[2] if abs(n) == 1 and t[0] in ("size", "arg", "ld") and not any(y is not t and t in sub(y) for y, _ in k[2])), None)
                if t is not None: m = {t[0]: add(t[0], mul(I(-t[1]), k))}; break
            if m is None: break
            ks = list(dict.fromkeys(k for k in (poly(sym.subst(k, m)) for k in ks) if k != I(0))); e = poly(sym.subst(e, m))
        for _ in range(6):
            kn = list(ks)
            for q in {q for k in ks + [e] for q in divs(k)}:
                a, b = q[1], q[2]; r = add(a, prod(b, q), -1)
                ks += [r, add(add(b, r, -1), I(-1)), q]
                if two(kn, add(a, b, -1)) or any(nonneg(add(add(q, I(-1)), k, -1)) for k in ks): ks += [add(prod(b, q), b, -1), add(q, I(-1))]
            ks = list(dict.fromkeys(ks)); s = set(ks); m = {}
            for q in {q for k in ks + [e] for q in divs(k) if q[2][0] != "i" and any(True for _ in divs(q[2]))}:
                a, b = q[1], q[2]
                if two(ks, add(a, b, -1)) and two(ks, add(add(add(b, b), a, -1), I(-1))): m[q] = I(1)
                elif two(ks, add(add(b, a, -1), I(-1))): m[q] = I(0)
            for k in ks:                        # quotients the path fixes
                if k[0] == "div" and mul(I(-1), k) in s: m[k] = I(0)
                elif k[0] == "lin" and len(k[2]) == 1 and k[1] % k[2][0][1] == 0 and k[2][0][0][0] == "div" and mul(I(-1), k) in s: m[k[2][0][0]] = I(-k[1] // k[2][0][1])
            if not m: break
            ks = list(dict.fromkeys(poly(sym.subst(k, m)) for k in ks)); e = poly(sym.subst(e, m))
        for k in list(ks):
            if k[0] == "lin" and k[1] == -1 and len(k[2]) == 1 and k[2][0][0][0] == "mul": ks += [add(t, I(-1)) for t in factors(k[2][0][0])]
        while True:
            s = set(ks)
            q = next((k for k in ks if k[0] == "lin" and mul(I(-1), k) in s and any(abs(n) == 1 for t, n in k[2])), None)
            if q is None: break
            t, n = next((t, n) for t, n in q[2] if abs(n) == 1)
            def drop(x):
                m = next((m for y, m in x[2] if y == t), 0) if x[0] == "lin" else 1 if x == t else 0
                return add(x, mul(I(-m * n), q)) if m else x
            ks = [k for k in dict.fromkeys(drop(k) for k in ks) if k[0] != "i" or k[1] < 0]; e = drop(e)
        ks = list(dict.fromkeys(small(k) for k in ks)); e = small(e)
        return two(ks, e)

    def eq(self, P, a, b):
        d = poly(add(a, b, -1))
        if d == I(0): return True
        return self.holds(P, d) and self.holds(P, mul(I(-1), d))

    def norm(self, P, e):
        e = poly(e)
        for _ in range(4):
            for q in divs(e):
                a, b = q[1], q[2]
                if b[0] == "i": continue
                if self.holds(P, add(add(b, a, -1), I(-1))): v = I(0)
                elif self.holds(P, add(a, b, -1)) and self.holds(P, add(add(add(b, b), a, -1), I(-1))): v = I(1)
                else: continue
                e = poly(sym.subst(e, {q: v})); break
            else: return e
        return e

    def decide(self, P, c):
        if c[0] != "cmp": return None
        return super().decide(P, ("cmp", c[1], poly2(c[2]), poly2(c[3])))

    def val(self, P, f, v, env, args):
        r = sym.VecSym.val(self, P, f, v, env, args)
        return self.norm(P, r) if r[0] in ("div", "rem", "mul", "lin") and any(x[0] in ("div", "rem", "mul") for x in sub(r)) else r

    # --- memory
    def isbuf(self, v): return False
    def src(self, P, v): return v == self.In or v in P.data.get("tags", {})
    def cap(self): return I(0)
    def vsize(self, P, v): return sym.VecSym.vsize(self, P, v)

    def load(self, P, a):
        if a[0] == "fld" and a[2] == "RegisterSize": return I(self.reg)
        return None

    def inline(self, g, args, P):
        if g.cls == MEMT or g.cls.startswith("std::"): return False
        return g.in_cex and g.file == self.f.file and self.rule.shape(g).out is None and any(a == self.Out or a == self.In for a in args)

    def tag(self, P, v): return P.data.get("tags", {}).get(v)
    def settag(self, P, v, t):
        d = dict(P.data.get("tags", {}))
        if t is None: d.pop(v, None)
        else: d[v] = t
        P.data["tags"] = d

    def origin(self, P, v, off, n, o=None):
        """the input range v[off, off+n) stands for; copies of input belonging elsewhere are chaining values"""
        if v == self.In: return (off, n)
        t = self.tag(P, v)
        if t is None: return None
        kind, toff, io, tn = t; at = add(add(io, off), toff, -1)
        if kind == "copy" and (o is None or not self.eq(P, add(at, self.Io, -1), add(o, self.O, -1))): return None
        return (at, n)

    def write(self, P, v, o, n, src, at):
        """src: (vector, offset) or None"""
        if v == self.Out:
            if src and src[0][0] == "fld" and src[0][2] == "MacTag": return          # the code behind the cipher-text: C03
            P.ev.append(("w", o, n, self.origin(P, src[0], src[1], n, o) if src else None, at)); return
        self.held(P, v, (src[0], src[1], o, n) if src else None)
        if src and src[0] == self.In: self.settag(P, v, ("copy", o, src[1], n))
        elif src and self.tag(P, src[0]) and src[0] != v:
            k, toff, io, tn = self.tag(P, src[0]); self.settag(P, v, (k, o, add(add(io, src[1]), toff, -1), n))
        else: self.settag(P, v, None)

    def held(self, P, v, w=0):
        d = dict(P.data.get("held", {}))
        if w == 0: return d.get(v)
        d[v] = w; P.data["held"] = d

    def mask(self, P, v, o, n, src, at):
        if v != self.Out: self.held(P, v, None)
        if v == self.Out:
            og = self.origin(P, src[0], src[1], n, o)
            P.ev.append(("x", o, n, og[0] if og else None, at)); return
        if src[0] == self.In: self.settag(P, v, ("xor", o, src[1], n))

    def vcopy(self, P, src, soff, dst, doff, n, f, i): self.write(P, dst, doff, n, (src, soff), i)
    def vfill(self, P, v, off, n, f, i): self.write(P, v, off, n, None, i)

    def store(self, P, a, v, f, i):
        if a[0] != "el": return False
        lds = [x for x in sub(v) if x[0] == "ld" and x[1][0] == "el"]
        own = [x for x in lds if x[1] == a]; src = next((x[1] for x in lds if x[1] != a and self.src(P, x[1][1])), None)
        other = next((x[1] for x in lds if x[1] != a), None); s = src or other
        if own: self.mask(P, a[1], a[2], I(1), (s[1], s[2]) if s else (a[1], a[2]), i)
        elif a[1] == self.Out: self.write(P, a[1], a[2], I(1), (s[1], s[2]) if s else None, i)
        return a[1] == self.Out

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts else None
        nm = g.base_nm if g is not None else (self.p.vname(i) if ts else None)
        if nm == "ParallelBlockSize" and len(args) == 1: return [(P, self.large())]
        if nm == "ParallelMinimumSize" and len(args) == 1: return [(P, self.least())]
        if nm == "BlockSize" and len(args) == 1 and f.cls.split("::")[-1] in WHOLE: return [(P, I(16))]
        if nm in ("IsParallel", "ParallelMaxDegree", "IsInitialized", "Min") or g is not None and g.base_nm in ("function", "ParallelFor"): return super().call(P, f, i, ts, args)
        touched = [a for a in args if a == self.Out]
        if i.callee in ("g:llvm.memcpy.p0.p0.i64", "g:llvm.memmove.p0.p0.i64") and args[0][0] == "el": self.write(P, args[0][1], args[0][2], args[2], (args[1][1], args[1][2]) if args[1][0] == "el" else None, i); return [(P, None)]
        if g is not None and (g.cls == MEMT or nm in ("SecureMove", "SecureCopy", "SecureInsert")):
            m = re.match(r"(COPY|XOR|CLEAR)(\d+)$", nm)
            if m and m.group(1) != "CLEAR" and len(args) == 4:
                (self.write if m.group(1) == "COPY" else self.mask)(P, args[2], args[3], I(int(m.group(2)) // 8), (args[0], args[1]), i); return [(P, None)]
            if nm in ("Copy", "Move", "SecureMove", "SecureCopy", "SecureInsert") and len(args) == 5: self.write(P, args[2], args[3], args[4], (args[0], args[1]), i); return [(P, None)]
            if nm in ("XOR", "XorPartial") and len(args) == 5: self.mask(P, args[2], args[3], args[4], (args[0], args[1]), i); return [(P, None)]
            if nm in ("Clear", "SetValue") and len(args) >= 3: self.write(P, args[0], args[1], args[2], None, i); return [(P, None)]
            if m: self.write(P, args[0], args[1], I(int(m.group(2)) // 8), None, i); return [(P, None)]
            if not touched: return None
        if g is None and nm is None: return None
        r = self.rule.contract(self, P, f, i, g, nm, args)
        if r is not None:
            o, n, src = r
            iv = next((k for k, t in g.param_types() if bytevec(t) and not t.startswith("const ") and args[k] != o[0]), None) if g is not None and g.cls == self.f.cls and self.rule.own(g) in CHAINED and nm not in FIXED else None
            if iv is not None: P.ev.append(("seg", args[iv], self.held(P, args[iv]), src, n, i)); self.held(P, args[iv], ("last", args[iv]))
            self.write(P, o[0], o[1], n, src, i); return [(P, None)]
        if g is not None:
            s = self.std(P, f, i, g, args)
            if s is not None: return s
            if touched and not g.cls.startswith("std::") and not self.inline(g, args, P) and nm not in ("Update", "Compute", "Compare", "Finalize"):
                raise Broken(f"{i.where}: {nm} is given the caller's range in a way that is not modelled")
        return None


def poly2(e):
    if not isinstance(e, tuple) or not e or not isinstance(e[0], str): return e
    if e[0] in ("lin", "mul", "div", "rem"): return poly(e)
    return tuple(poly2(x) if isinstance(x, tuple) else x for x in e)


class Rule:
    def __init__(self, ctx):
        self.ctx = ctx; self.p = ctx.p; self.shapes = {}; self.lens = {}; self.doing = []; self.units = {}

    def shape(self, f):
        if f.name not in self.shapes: self.shapes[f.name] = Shape(f)
        return self.shapes[f.name]

    def own(self, f): return f.cls.split("::")[-1]
    def whole(self, f): return self.own(f) in WHOLE
    def big(self, f): return f.base_nm == "ProcessParallel"

    def inscope(self, f):
        return self.own(f) in SCOPE and f.blocks and f.in_cex and not KERNEL.match(f.base_nm) and self.shape(f).out is not None and f.base_nm not in ("Finalize", "Pad", "Verify", "Store")

    def contract(self, x, P, f, i, g, nm, args):
        """((vector, offset), length, source) of a call that writes a range, None when it does not"""
        if g is not None and g.cls.startswith("std::"): return None
        m = re.match(r"Transform(\d+)$", nm)
        if m and len(args) == 5: return (args[3], args[4]), I(int(m.group(1)) // 8), (args[1], args[2])
        m = re.match(r"(?:Inverse)?Pe(?:r)?mute(?:R\d+)?P(?:(\d+)x)?(\d+)[A-Z]?", nm)
        if m and g is not None:
            k = next((k for k, t in g.param_types() if bytevec(t) and not t.startswith("const")), None)
            if k is not None: return (args[k], args[k + 1]), I(int(m.group(1) or 1) * int(m.group(2)) // 8), None
            return None
        if g is not None and g.cls == "CEX::Digest::Keccak" and nm == "Squeeze" and len(args) >= 5: return (args[1], args[2]), prod(args[3], args[4]), None
        if nm in FIXED and (g is None or not self.inscope(g)):
            if len(args) == 5: return (args[3], args[4]), I(16), (args[1], args[2])
            if len(args) == 3: return (args[2], I(0)), I(16), (args[1], I(0))
        if g is None:
            # a member cipher or generator called through its interface
            if nm in ("Transform",) and len(args) == 6: return (args[3], args[4]), args[5], (args[1], args[2])
            if nm == "Generate" and len(args) == 4: return (args[1], args[2]), args[3], None
            return None
        if self.inscope(g):
            s = self.shape(g); n = self.length(g, x.reg)
            if n is None: raise Broken(f"{i.where}: {short(g)} has no length of its own")
            n = sym.subst(n, {("arg", k): a for k, a in enumerate(args)})
            return (args[s.out[0]], args[s.out[1]]), n, (args[s.inp[0]], args[s.inp[1]]) if s.inp else None
        if nm == "Transform" and len(args) == 6: return (args[3], args[4]), args[5], (args[1], args[2])
        if nm == "Generate" and len(args) == 4: return (args[1], args[2]), args[3], None
        return None

    def length(self, f, reg=16):
        """bytes f writes behind its offset, as an expression of its arguments"""
        k = (f.name, reg)
        if k not in self.lens:
            if k in self.doing: raise Broken(f"{short(f)} calls itself")
            self.doing.append(k); self.lens[k] = self.check(f, reg); self.doing.pop()
        return self.lens[k]

    def check(self, f, reg):
        err = broken = None; s = self.shape(f)
        for scale in (16, 1) if s.len is not None else (1,):
            try: n, err2 = self.attempt(f, reg, scale)
            except Broken as e:
                if broken is None: broken = e
                continue
            if err2 is None: return n
            err = err2
        if err is None: raise broken
        at, msg, path = err
        self.ctx.report(f"C13:{short(f)}{'' if reg == 16 else ':narrow'}:{'parallel' if path else 'sequential'}", at.where if at is not None else f'CEX/{f.file.split(chr(47))[-1]}:{f.line}', f"{short(f)} {msg}")
        return ("arg", s.len) if s.len is not None else I(16)

    def attempt(self, f, reg, scale):
        s = self.shape(f); total = mul(I(scale), ("arg", s.len)) if s.len is not None else None; n = 0
        for par in (False, True):
            x = Flow(self, f, par, reg); x.scale = scale
            for kind, P, v in x.run(f, [("arg", k) for k in range(f.nargs)]):
                if kind != "ret" or x.holds(P, I(-1)): continue
                if f.cls.split('::')[-1] in AEAD and not P.ev: continue
                r = self.replay(x, P)
                if isinstance(r[0], str) is False and len(r) == 2 and isinstance(r[1], str): return None, (r[0], r[1], par)
                w, c = r[1], r[2]; n += 1
                if total is None: total = w
                if not x.eq(P, w, total): return None, (None, f"produces {show(w)} of the {show(total)} bytes asked for", par)
                if x.In and not x.eq(P, c, total): return None, (None, f"takes {show(c)} of the {show(total)} bytes given", par)
        self.ctx.count("paths replayed", n)
        if total is None: raise Broken(f"{short(f)}: no path was followed to its end")
        return total, None

    def replay(self, x, P):
        ev = []; lane = None
        for e in P.ev:
            if e[0] == "par": lane = (e, [])
            elif e[0] == "end":
                (_, lo, hi, at), es = lane; lane = None
                if not es: continue
                if lo != I(0): return at, f"starts its workers at {show(lo)}"
                if not x.eq(P, hi, x.degree): return at, f"starts {show(hi)} workers of {show(x.degree)}"
                sg = [e for e in es if e[0] == "seg"]; es = [e for e in es if e[0] != "seg"]
                if sg or x.rule.own(x.f) in CHAINED:
                    r = self.chain(x, P, sg, at)
                    if r: return r
                ws = [e for e in es if e[0] == "w"]
                if not ws: return at, "has a worker that produces nothing"
                o0 = ws[0][1]; i0 = next((e[3] if e[0] == "x" else e[3][0] for e in es if e[3] is not None), None)
                r = self.seq(x, P, es, o0, i0)
                if len(r) == 2: return r
                w, c = r[1], r[2]
                for z, what in ((o0, "writes"),) + (((i0, "reads"),) if i0 is not None else ()):
                    b = poly(add(z, prod(IDX, w), -1))
                    if mentions(b, lambda q: q == IDX): return at, f"worker i {what} from {show(z)}, it processes {show(w)} bytes"
                if i0 is not None and not x.eq(P, c, w): return at, f"a worker takes {show(c)} bytes and produces {show(w)}"
                ob = poly(add(o0, prod(IDX, w), -1)); n = prod(x.degree, w)
                ev.append(("w", ob, n, (poly(add(i0, prod(IDX, w), -1)), n) if i0 is not None else None, at))
            elif lane is not None: lane[1].append(e)
            else: ev.append(e)
        return self.seq(x, P, ev, x.O, x.Io)

    def chain(self, x, P, sg, at):
        """the workers of a chained mode: each starts from the cipher block before its share, the last one leaves the object's register"""
        if len(sg) != 1: return at, "has a worker that does not hand its register to one segment call"
        _, v, h, src, n, i = sg[0]; reg = x.held(P, v); first = x.truth(P, ("cmp", "eq", IDX, I(0))); last = x.truth(P, ("cmp", "eq", IDX, add(x.degree, I(-1))))
        whole = lambda w: w is not None and w[0] != "last" and x.eq(P, w[1], I(0)) and x.eq(P, w[2], I(0)) and x.eq(P, w[3], I(16))
        if first is True:
            if not (h and h[0][0] == "fld" and whole(h)): return i, "starts the first worker from something else than the object's register"
        elif first is False:
            if not (h and h[0] == x.In and x.eq(P, h[1], add(src[1], I(16), -1)) and x.eq(P, h[2], I(0)) and x.eq(P, h[3], I(16))): return i, "starts a worker from something else than the cipher block before its share"
        else: return i, "starts the first worker like the others"
        regs = [(k, w) for k, w in P.data.get("held", {}).items() if k[0] == "fld"]
        end = lambda w: w is not None and w[0] == x.In and x.eq(P, w[1], add(add(sym.subst(src[1], {IDX: I(0)}), prod(x.degree, n)), I(-16))) and x.eq(P, w[2], I(0)) and x.eq(P, w[3], I(16))
        if len(regs) == 1 and end(regs[0][1]): return
        if last is True and len(regs) == 1:
            k, w = regs[0]
            while w is not None and w[0] != "last" and whole(w) and w[0][0] != "fld" and x.held(P, w[0]) is not None: w = x.held(P, w[0])
            if w != ("last", v): return at, "does not leave the last worker's register in the object"
        elif last is True: return at, "does not leave the last worker's register in the object"
        elif last is False:
            for k, w in regs:
                while w is not None and w[0] != "last" and x.held(P, w[0]) is not None: w = x.held(P, w[0])
                if w == ("last", v): return at, "leaves the register of a worker other than the last in the object"
        else: return at, "leaves the register of any worker in the object"

    def seq(self, x, P, es, O, Io):
        w = c = I(0); last = None
        for e in es:
            if e[0] == "seg": continue
            at = e[-1]; o, n = e[1], e[2]
            if x.holds(P, mul(I(-1), poly(n))): continue
            if e[0] == "w":
                if not x.eq(P, o, add(O, w)): return at, f"writes at {show(poly(o))}, the next byte to produce is at {show(poly(add(O, w)))}"
                if e[3] is not None:
                    if not x.eq(P, e[3][0], add(Io, c)): return at, f"reads its input at {show(poly(e[3][0]))}, the next byte to take is at {show(poly(add(Io, c)))}"
                    if not x.eq(P, c, w): return at, f"takes input byte {show(c)} for output byte {show(w)}"
                    c = poly(add(c, n))
                last = (o, n); w = poly(add(w, n))
            else:
                if e[3] is None:
                    if last is None or not x.eq(P, o, last[0]) or not x.eq(P, n, last[1]): return at, f"masks {show(n)} bytes at {show(poly(o))}, not the range just produced"
                    continue
                if not x.eq(P, e[3], add(Io, c)): return at, f"reads its input at {show(poly(e[3]))}, the next byte to take is at {show(poly(add(Io, c)))}"
                if not x.eq(P, o, add(O, c)): return at, f"combines input byte {show(c)} with output byte {show(poly(add(o, O, -1)))}"
                c = poly(add(c, n))
                if not x.holds(P, add(w, c, -1)): return at, f"takes input for {show(c)} bytes when {show(w)} are produced"
        return "ok", w, c


AEAD = ("GCM", "HBA", "RCS", "RWS", "CSX512", "ChaChaP20", "TSX256", "TSX512", "TSX1024")


# ------------------------------------------------------------------ what a block mode makes of one block
ZERO = frozenset()
def atom(*t): return frozenset({t})


class Block(Flow):
    """byte values as exclusive-or sums of input bytes, register bytes and cipher outputs"""
    MAXLOOP = 600

    def __init__(self, rule, f, reg, count, inv, more):
        super().__init__(rule, f, False, reg); self.n = count; self.more = more; self.inv = inv; self.bad = None

    def given(self): return []

    def ix(self, v, off):
        b = self.O if v == self.Out else self.Io if v == self.In else I(0)
        d = poly(add(off, b, -1))
        if d[0] != "i": raise Broken(f"{short(self.f)}: position {show(off)} in {show(v)} is not followed")
        return d[1]

    def get(self, P, v, off, n):
        m = P.data.get(("m", v), {}); k = self.ix(v, off)
        return [m.get(j, self.first(v, j)) for j in range(k, k + n)]

    def first(self, v, j):
        if v == self.In: return atom("in", j)
        if v[0] == "loc": return ZERO
        return atom("reg", v, j)

    def put(self, P, v, off, vals):
        m = dict(P.data.get(("m", v), {})); k = self.ix(v, off)
        for j, x in enumerate(vals): m[k + j] = x
        P.data[("m", v)] = m

    def num(self, n, at):
        n = poly(n)
        if n[0] != "i": raise Broken(f"{at.where}: length {show(n)} is not followed")
        return n[1]

    def load(self, P, a):
        if a[0] == "fld" and a[2] == "RegisterSize": return I(self.reg)
        return None

    def vsize(self, P, v):
        if v in P.size: return P.size[v]
        if v == self.In: return add(self.Io, I(self.reg * self.n + self.more))
        if v == self.Out: return add(self.O, I(self.reg * self.n + self.more))
        if v[0] in ("fld", "ld") or v[0] == "arg" and v not in (self.In, self.Out): return I(16)
        return ("size", v)

    def write(self, P, v, o, n, src, at):
        n = self.num(n, at); self.put(P, v, o, self.get(P, src[0], src[1], n) if src else [ZERO] * n)

    def mask(self, P, v, o, n, src, at):
        n = self.num(n, at); self.put(P, v, o, [a ^ b for a, b in zip(self.get(P, v, o, n), self.get(P, src[0], src[1], n))])

    def byte(self, P, v):
        """value of a byte expression"""
        if v[0] == "i": return ZERO if v[1] == 0 else None
        if v[0] == "ld" and v[1][0] == "el": return self.get(P, v[1][1], v[1][2], 1)[0]
        if v[0] == "xor" and len(v) == 3:
            a, b = self.byte(P, v[1]), self.byte(P, v[2])
            return None if a is None or b is None else a ^ b
        if v[0] in ("trunc", "zext", "sext", "and") and len(v) > 1: return self.byte(P, v[1])
        return None

    def store(self, P, a, v, f, i):
        if a[0] != "el": return False
        if a[1][0] == "loc" and v[0] not in ("xor", "ld", "trunc"): return False
        x = self.byte(P, v)
        if x is None: raise Broken(f"{i.where}: the byte stored ({show(v)}) is not followed")
        self.put(P, a[1], a[2], [x]); return True

    def inline(self, g, args, P): return g.in_cex and g.file == self.f.file and g.cls == self.f.cls

    def cipher(self, nm):
        return {"EncryptBlock": "E", "DecryptBlock": "D"}.get(nm, "D" if self.inv else "E")

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts else None
        nm = g.base_nm if g is not None else (self.p.vname(i) if ts else None)
        if nm and g is not None and g.cls.endswith("IntegerTools") and nm.startswith(("BeIncrement", "LeIncrement")): return [(P, None)]
        if nm and (g is None or not (g.cls == self.f.cls)) and len(args) in (3, 5):
            m = re.match(r"Transform(\d*)$", nm)
            if m or nm in ("EncryptBlock", "DecryptBlock"):
                a, ao, b, bo = (args[1], args[2], args[3], args[4]) if len(args) == 5 else (args[1], I(0), args[2], I(0))
                for k in range(int(m.group(1) or 128) // 128 if m else 1):
                    x = tuple(self.get(P, a, add(ao, I(16 * k)), 16)); self.put(P, b, add(bo, I(16 * k)), [atom(self.cipher(nm), x, j) for j in range(16)])
                return [(P, None)]
        if g is not None and self.inline(g, args, P): return None
        return super().call(P, f, i, ts, args)


def blk(c, x): return [atom(c, tuple(x), j) for j in range(16)]


def definition(mode, enc, ins, reg, r):
    """(output, register afterwards) of one block"""
    x = lambda a, b: [p ^ q for p, q in zip(a, b)]
    if mode == "ECB": return blk("E" if enc else "D", ins), reg
    if mode == "CBC":
        if enc: o = blk("E", x(ins, reg)); return o, o
        return x(blk("D", ins), reg), ins
    ks = blk("E", reg)
    o = x(ks[:r], ins)
    if mode == "CFB": return o, reg[r:] + (o if enc else ins)
    return o, (ks if mode == "OFB" else None)


def inverse(R, cls):
    """the mode's block cipher runs backwards when the mode decrypts"""
    for f in R.p.funcs.values():
        if f.cls != cls or f.base_nm != "Initialize" or not f.blocks: continue
        for i in f.calls:
            if R.p.vname(i) == "Initialize" and len(i.args) == 3: return R.ctx.ex.val(f, i.args[1])[0] == "arg"
    return False


def blocks(ctx, R):
    p = ctx.p
    for mode in ("ECB", "CBC", "CFB", "OFB", "CTR", "ICM"):
        cls = MODES + mode; inv = inverse(R, cls)
        for f in sorted((f for f in p.funcs.values() if f.cls == cls and f.blocks), key=lambda f: f.name):
            s = R.shape(f)
            seg = f.base_nm not in ("EncryptBlock", "DecryptBlock")
            if s.out is None or s.inp is None: continue
            vs = [k for k, t in f.param_types() if bytevec(t) and not t.startswith("const ") and k != s.out[0]]
            if seg and (len(vs) != 1 or s.len is None): continue
            if not seg and s.len is not None: continue
            enc = f.base_nm == "EncryptBlock"
            for r in (range(1, 17) if mode == "CFB" and not seg else (16,)):
                for n in (range(1, 19) if seg else (1,)):
                    for more in (0, 400) if seg else (0,):
                        ctx.count("block data flows"); oneblock(ctx, R, f, mode, enc, r, n, vs[0] if seg else None, inv and not enc, s, more)


def oneblock(ctx, R, f, mode, enc, r, n, iv, inv, s, more):
    x = Block(R, f, r, n, inv, more); args = [("arg", k) for k in range(f.nargs)]
    if s.len is not None: args[s.len] = I(n)
    done = 0
    for kind, P, v in x.run(f, args):
        if kind != "ret": continue
        done += 1
        regs = [k[1] for k in P.data if k[0] == "m" and k[1] not in (x.Out, x.In) and k[1][0] != "loc"]
        got = x.get(P, x.Out, x.O, r * n)
        # the register: the vector parameter of a segment function, else the object's own field
        used = sorted({a[1] for b in got for a in flat(b) if a[0] == "reg"}, key=repr)
        rv = ("arg", iv) if iv is not None else next((v for v in used if v[0] != "arg"), regs[0] if regs else None)
        if rv is None and mode != "ECB": ctx.report(f"C13:{short(f)}:block", f"CEX/{f.file.split('/')[-1]}:{f.line}", f"{short(f)} does not use the mode's register"); return
        reg = [atom("reg", rv, j) for j in range(16)]
        for k in range(n):
            o, reg = definition(mode, enc, [atom("in", k * r + j) for j in range(r)], reg, r)
            if got[k * r:k * r + r] != o:
                ctx.report(f"C13:{short(f)}:block", f"CEX/{f.file.split('/')[-1]}:{f.line}", f"{short(f)}: output block {k} of {n} is not what {mode} {'encryption' if enc else 'decryption'} is defined to produce" + (f" with a register of {r}" if r != 16 else "")); return
        if mode in ("CBC", "CFB", "OFB") and x.get(P, rv, I(0), 16) != reg:
            ctx.report(f"C13:{short(f)}:register", f"CEX/{f.file.split('/')[-1]}:{f.line}", f"{short(f)}: the register left for the next block is not the one {mode} {'encryption' if enc else 'decryption'} continues from" + (f" with a register of {r}" if r != 16 else "")); return
    if not done: raise Broken(f"{short(f)}: no path was followed to its end")


def flat(b, seen=None):
    for a in b:
        yield a
        if a[0] in ("E", "D"):
            for y in a[1]: yield from flat(y)


# ------------------------------------------------------------------ the shares of the parallel sections
PROF = "CEX::ParallelOptions"


def profiles(ctx, R):
    """the block size each class gives its parallel profile"""
    p, ex = ctx.p, ctx.ex
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.blocks or not f.cls.startswith("CEX::") or f.cls == PROF: continue
        for i in f.calls:
            ts = p.callees(i) or []; g = p.funcs.get(ts[0]) if len(ts) == 1 else None
            if g is None or g.base_nm != "ParallelOptions" or g.cls != PROF or len(i.args) < 4: continue
            v = ex.val(f, i.args[1]); own = R.own(f)
            if own not in SCOPE or own in ("GCM", "HBA"): continue
            ctx.count("parallel profiles")
            if v[0] == "m" and v[1] == "BlockSize": v = I(16)
            if v[0] != "i": raise Broken(f"{i.where}: the block size of the parallel profile is {show(v)}")
            if R.units.setdefault(f.cls, v[1]) != v[1]: ctx.report(f"C13:{f.cls}:profile", i.where, f"{f.cls} has profiles for blocks of {R.units[f.cls]} and of {v[1]} bytes")


class Shares(sym.VecSym):
    def inline(self, g, args, P): return False
    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts else None
        return self.std(P, f, i, g, args) if g is not None else None


def shares(ctx, R):
    """ParallelOptions: the parallel block is a whole number of blocks for each worker, whatever was asked for"""
    p = ctx.p; own = [f for f in p.funcs.values() if f.cls == PROF and f.blocks]
    calc = [f for f in own if f.base_nm == "Calculate" and f.nargs == 1]
    if len(calc) != 1: raise Broken("ParallelOptions::Calculate not found")
    this = ("arg", 0); fld = lambda n: ("fld", this, n)
    deg, blk_, par, low = fld("m_parallelMaxDegree"), fld("m_blockSize"), fld("m_parallelBlockSize"), fld("m_parallelMinimumSize")
    for kind, P, v in Shares(p, ctx.ex).run(calc[0], [this]):
        if kind != "ret": continue
        ctx.count("profile paths")
        now = lambda a: poly(P.mem.get(a, ("ld", a)))
        one = prod(now(deg), now(blk_)); m = now(low); k = quot(m, one)
        if k[0] != "i" or k[1] < 1: ctx.report("C13:ParallelOptions:minimum", f"CEX/ParallelOptions.cpp:{calc[0].line}", f"ParallelOptions::Calculate: the smallest parallel size {show(m)} is not a number of blocks for each worker"); continue
        b = now(par)
        zero = any(t is (c[1] == "eq") and c[1] in ("eq", "ne") and c[3] == I(0) and poly(c[2]) == b for c, t in P.cond.items() if c[0] == "cmp")
        if not zero and poly(add(b, prod(m, quot(b, m)), -1)) != I(0) and b != prod(m, quot(b, m)): ctx.report("C13:ParallelOptions:share", f"CEX/ParallelOptions.cpp:{calc[0].line}", f"ParallelOptions::Calculate: the parallel block {show(b)} is not a whole number of smallest sizes")
    for f in own:
        if f.base_nm in ("Calculate", "Reset", "Detect") and f.nargs == 1 or f.base_nm.startswith("~"): continue
        st = Follow(p, ctx.ex).run(f, [("arg", k) for k in range(f.nargs)])
        for kind, P, v in st:
            if kind == "ret" and P.data.get("dirty") is not None:
                i = P.data["dirty"]; ctx.report(f"C13:ParallelOptions::{f.base_nm}:stale", i.where, f"ParallelOptions::{f.base_nm} changes the degree or a block size and leaves the others as they were"); break
        ctx.count("profile functions")


class Follow(sym.VecSym):
    def inline(self, g, args, P): return g.cls == PROF and g.base_nm != "Calculate"
    def store(self, P, a, v, f, i):
        if a[0] == "fld" and a[2] in ("m_parallelMaxDegree", "m_blockSize", "m_parallelBlockSize", "m_parallelMinimumSize", "m_simdMultiply"): P.data["dirty"] = i
        return False
    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts else None
        if g is not None and g.cls == PROF and g.base_nm == "Calculate" and g.nargs == 1: P.data["dirty"] = None; return [(P, None)]
        return self.std(P, f, i, g, args) if g is not None else None


def run_C13(ctx):
    R = Rule(ctx)
    ctx.rule = ("each path of a function that fills a caller's range writes every byte of it once, in order, and takes the input byte at the same place for it; the parallel workers' shares cover the range; "
                "one block of a mode is the mode's definition byte for byte, and leaves the register the next block is defined to use")
    ctx.assume += ["the numbers of bytes do not overflow size_t and offsets plus lengths fit the vectors (C04, C08)", "loops over blocks are followed for up to two undecided rounds; each round is checked against the place the one before left",
                   "a block function produces one block and a wide block function as many blocks as its name says, at the place it is given", "the parallel profile is used as ParallelOptions computes it, with one to any number of workers"]
    profiles(ctx, R); shares(ctx, R)
    for f in sorted(ctx.p.funcs.values(), key=lambda f: f.name):
        if not R.inscope(f): continue
        ctx.count("functions"); ctx.sample(short(f))
        R.length(f)
        if R.own(f) == "CFB" and f.base_nm not in ("DecryptSegment", "DecryptParallel"): R.length(f, 1)
    blocks(ctx, R)
    for k, n in (("functions", 70), ("paths replayed", 400), ("block data flows", 80), ("parallel profiles", 20), ("profile functions", 15), ("profile paths", 40)): ctx.floor(k, n)
