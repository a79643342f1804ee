"""C11 key material is taken in legal sizes only, and then whole."""
import re
import ir, sym
from ir import I, add, show, root, mentions
from sym import fold, entails, subst
from frontend import Broken

KEYOBJ = "CEX::Cipher::ISymmetricKey"
PARTS = {"Key": "key", "SecureKey": "key", "IV": "nonce", "SecureIV": "nonce", "Info": "info", "SecureInfo": "info"}
FIELDS = {"m_keySize": "key", "m_ivSize": "nonce", "m_infoSize": "info"}
ROOTS = ("CEX::Mac::IMac", "CEX::Kdf::IKdf", "CEX::Drbg::IDrbg", "CEX::Cipher::Block::Mode::ICipherMode", "CEX::Cipher::Block::Mode::IAeadMode", "CEX::Cipher::Block::IBlockCipher", "CEX::Cipher::Stream::IStreamCipher")
MEMT = "CEX::Tools::MemoryTools"
INTT = "CEX::Tools::IntegerTools"


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


STOP = ("CEX::Digest::Keccak",)


class KeySym(sym.VecSym):
    MAXSTEPS = 200000
    MAXLOOP = 600
    forks = 2
    forksel = True
    coarse = ("xor", "or", "ashr")

    def __init__(self, ctx, f):
        super().__init__(ctx.p, ctx.ex); self.ctx = ctx; self.f = f; self.argv = {}; self.keysize = None; self.extended = None
        n = [k for k, t in f.param_types() if "ISymmetricKey" in t]
        self.par = ("arg", n[0]) if n else None

    # sizes of the parts have one name
    def part(self, e):
        if e[0] == "ld" and e[1][0] == "fld" and e[1][2] in FIELDS and mentions(e[1][1], lambda q: q == self.par): return self.sz(FIELDS[e[1][2]])
        return None

    def load(self, P, a):
        r = self.part(("ld", a))
        if r is not None: return r
        if a[0] == "el" and self.of(P, a[1]) is not None: self.read(P, a[1], a[2], I(self.width(self.cur.raw[3])), self.f, self.cur)
        return None

    def sz(self, part): return I(self.keysize) if part == "key" and self.keysize is not None else ("sz", part)

    @staticmethod
    def width(t):
        m = re.match(r"<(\d+) x i(\d+)>|i(\d+)", t)
        if not m: return 8
        return int(m.group(1)) * int(m.group(2)) // 8 if m.group(1) else max(1, int(m.group(3)) // 8)

    def decide(self, P, c):
        s = repr(c)
        if self.extended is not None and "m_kdfGenerator" in s:
            if c[0] == "cmp" and c[3] == I(0): return self.extended == (c[1] == "ne")
            if c[0] == "c" and c[1].startswith(("_ZStne", "_ZSteq")): return self.extended == c[1].startswith("_ZStne")
        if c[0] == "cmp" and c[1] == "ult" and c[2] == I(0) and c[3][0] == "size" and c[3][1][0] == "fld" and c[3][1][2] == "State": return True       # the permutation state is never empty
        if "m_isParallel" in s or "arallel" in s: return False
        if c[0] == "c" and "SymmetricKeySize8Contains" in c[1]:
            for a in c[2]:
                if a == self.sz("key"): P.data[("legal", "key")] = True
            return True
        return None

    def of(self, P, v):
        """the part a container holds whole"""
        return P.data.get(("is", v))

    def vcopy(self, P, src, soff, dst, doff, n, f, i):
        o = self.of(P, src)
        if o is None: P.data.pop(("is", dst), None)
        elif soff == I(0) and doff == I(0) and n == self.vsize(P, src): P.data[("is", dst)] = o
        else: self.read(P, src, soff, n, f, i, (dst, doff)); P.data.pop(("is", dst), None)

    def read(self, P, v, off, n, f, i, dst=None):
        o = self.of(P, v)
        if o is not None:
            if dst is not None: dst += (self.vsize(P, dst[0]) if dst[0][0] != "el" else None,)
            P.ev.append((o, off, n, i.where, dst, len(P.cond)))

    def inline(self, g, args, P):
        if g.cls in (MEMT, INTT) or g.cls.startswith("std::"): return False
        if not g.blocks: return False
        if g.base_nm.startswith("_mm"): return True
        if not g.in_cex: return False
        if g.cls in STOP and g.cls != self.f.cls: return False
        return g.file == self.f.file and len(g.blocks) < 150 or g.base_nm in ("KeySizes", "KeySize", "IVSize", "InfoSize") or (len(g.blocks) == 1 and g.cls == self.f.cls)

    def call(self, P, f, i, ts, args):
        g = self.p.funcs.get(ts[0]) if ts else None
        if not isinstance(i.callee, str) and self.par is not None:
            nm = self.p.vname(i)
            obj = next((k for k, a in enumerate(args[:2]) if a == self.par), None)
            if obj is not None:
                if nm in PARTS:
                    P.data[("is", args[0])] = PARTS[nm]; P.size[args[0]] = self.sz(PARTS[nm])
                    return [(P, None)]
                if nm == "KeySizes": return None
        if isinstance(i.callee, str) and i.callee.startswith(("g:llvm.mem", "llvm.mem")) and len(args) >= 3:
            a = args[1]
            if a[0] == "el" and self.of(P, a[1]) is not None: self.read(P, a[1], a[2], args[2], f, i); return [(P, None)]
        if isinstance(i.callee, str) and re.search(r"basic_string.*(4size|6length)Ev$", i.callee): return [(P, ("strsize", args[0]))]
        if g is None: return self.uses(P, f, i, None, args)
        if g.base_nm in ("KeySize", "IVSize", "InfoSize") and g.cls == "CEX::Cipher::SymmetricKeySize":
            e = ("ld", ("fld", args[0], {"KeySize": "m_keySize", "IVSize": "m_ivSize", "InfoSize": "m_infoSize"}[g.base_nm]))
            r = self.part(e)
            if r is not None: return [(P, r)]
        nm = g.base_nm
        # whole containers converted into others
        if nm in ("SecureLock", "SecureUnlock", "SecureLockClear", "SecureUnlockClear") and len(args) == 2:
            o = self.of(P, args[1]); P.size[args[0]] = self.vsize(P, args[1])
            if o is not None: P.data[("is", args[0])] = o
            return [(P, None)]
        if nm in ("SecureMove", "SecureCopy", "Copy", "Move", "SecureInsert", "SecureExtract") and (g.cls == MEMT or not g.cls.startswith("std")):
            if len(args) == 5: self.read(P, args[0], args[1], args[4], f, i, (args[2], args[3])); return [(P, None)]
            if len(args) == 3: self.read(P, args[0], I(0), self.vsize(P, args[0]), f, i, (args[1], args[2])); return [(P, None)]
            if len(args) == 2: self.read(P, args[0], I(0), self.vsize(P, args[0]), f, i, (args[1], I(0))); return [(P, None)]
        m = re.match(r"(?:COPY|XOR)(\d+)$", nm)
        if m and g.cls == MEMT: self.read(P, args[0], args[1], I(int(m.group(1)) // 8), f, i, (args[2], args[3])); return [(P, None)]
        if nm == "XOR" and g.cls == MEMT: self.read(P, args[0], args[1], args[4], f, i, (args[2], args[3])); return [(P, None)]
        if nm in ("CopyToObject",) and g.cls == MEMT: self.read(P, args[0], args[1], args[3], f, i); return [(P, None)]
        if nm in ("Min", "Max") and g.cls == INTT and len(args) == 2:
            c = fold(("cmp", "ult", args[0], args[1])); d = self.truth(P, c)
            lo, hi = args if nm == "Min" else args[::-1]
            if d is not None: return [(P, lo if d else hi)]
            q = P.copy(); P.cond[c] = True; q.cond[c] = False
            return [(P, lo), (q, hi)]
        m = re.match(r"(?:Le|Be)BytesTo(\d+)$", nm)
        if m and g.cls == INTT:
            self.read(P, args[0], args[1], I(int(m.group(1)) // 8), f, i); return None
        r = self.std(P, f, i, g, args)
        if r is not None: return r
        if self.inline(g, args, P) and len(ts) == 1:
            for k, a in enumerate(args): self.argv[(g.name, k)] = a
            return None
        its = [self.iterval(P, a) for a in args]
        for k in range(len(its) - 1):
            a, b = its[k], its[k + 1]
            if a is not None and b is not None and a[1] == b[1] and self.of(P, a[1]) is not None:
                self.read(P, a[1], a[2], add(b[2], a[2], -1), f, i); return None
        if self.ranged(P, f, i, g, args): return None
        return self.uses(P, f, i, g, args)

    def touches(self, P, f, l, env):
        """a loop whose body names a part, or what holds one"""
        for b in l["bl"]:
            for i in f.blocks[b]:
                for a in i.raw[3:]:
                    for v in (a if isinstance(a, list) else (a,)):
                        e = env.get(v) if isinstance(v, int) and v >= f.nargs else ("arg", v) if isinstance(v, int) and v >= 0 and f is self.f else self.argv.get((f.name, v)) if isinstance(v, int) and v >= 0 else None
                        if isinstance(e, tuple) and (e == self.par or self.of(P, e) is not None): return True
        return False

    def enter(self, P, f, bi, pred, env):
        l = next((l for l in f.loops if l["h"] == bi), None)
        if l is None: return
        key = ("loop", f.name, bi)
        if pred in l["bl"]: return False if P.data.get(key) else None
        P.data[key] = not self.touches(P, f, l, env)
        if P.data[key]:
            for i in f.blocks[bi]:
                if i.op == "phi" and i.id in env: env[i.id] = P.fresh("phi")
            P.mem = {k: v for k, v in P.mem.items() if k[0] == "up"}

    def ranged(self, P, f, i, g, args):
        """a part handed over as (container, offset, length)"""
        ps = dict(g.param_types()); hit = False
        for k, a in enumerate(args):
            t = [ps.get(j, "") for j in range(k + 1, min(len(args), k + 3))]
            if self.of(P, a) is not None and len(t) == 2 and all(x.startswith("unsigned long long") for x in t): self.read(P, a, args[k + 1], args[k + 2], f, i); hit = True
        return hit

    def uses(self, P, f, i, g, args):
        nm = g.base_nm if g is not None else self.p.vname(i) if not isinstance(i.callee, str) else ""
        if self.par in args: P.ev.append((("whole", nm), None, None, i.where, None, len(P.cond)))
        if nm.startswith("~") or nm in ("size", "empty", "operator==", "operator!=", "Clear", "SecureClear", "capacity"): return None
        for k, a in enumerate(args):
            if self.of(P, a) is not None: self.read(P, a, I(0), self.vsize(P, a), f, i)
        return None


def inits(p):
    """(function, {argument: part}): what takes a key set, or its parts as vectors"""
    seen = set()
    for b in ROOTS:
        for c in sorted(p.subs.get(b, ())):
            for f in sorted(p.methods(c), key=lambda f: f.name):
                if not f.virt or not f.blocks or f.name in seen: continue
                vs = [k for k, t in f.param_types() if "std::vector" in t and t.startswith("const")]
                if f.base_nm == "Initialize" and any("ISymmetricKey" in t for t in f.sty): seen.add(f.name); yield f, {}
                elif (f.base_nm == "Initialize" or (f.base_nm == "Update" and b.endswith("IDrbg"))) and vs and len(vs) == f.nargs - 1:
                    seen.add(f.name); yield f, dict(zip(vs, ("key", "nonce", "info")))


def facts_of(ctx, cls):
    """constants of a class: its minimum sizes, the smallest legal key, the sizes of the containers of its state"""
    p, ex = ctx.p, ctx.ex
    mins, legal, sizes = {}, [], {}
    for f in p.funcs.values():
        if not f.blocks or not (f.cls == cls or f.cls.startswith(cls + "::")): continue
        env = {}
        for b in f.blocks:
            for i in b:
                if i.op not in ("call", "invoke"): continue
                for t in p.callees(i):
                    g = p.funcs.get(t)
                    if g is None: continue
                    if g.cls == "CEX::Cipher::SymmetricKeySize" and g.base_nm == "SymmetricKeySize" and len(i.args) == 4:
                        v = ex.val(f, i.args[1])
                        if v[0] == "i": legal.append(v[1])
                    if g.base_nm in BASES and g.cls.split("::")[-1] == g.base_nm:
                        for k, (fn, nm) in base_fields(ctx, g).items():
                            if k < len(i.args): mins.setdefault(nm, set()).add(ex.val(f, i.args[k]))
                    if g.base_nm == "vector" and g.cls.startswith("std::vector") and len(i.args) >= 2 and f.cls != cls:
                        a = ex.val(f, i.args[0]); n = ex.val(f, i.args[1])
                        if a[0] == "fld" and n[0] == "i": sizes.setdefault(a[2], set()).add(n)
    return mins, legal, {k: next(iter(v)) for k, v in sizes.items() if len(v) == 1}


BASES = ("MacBase", "KdfBase", "DrbgBase")
GETTERS = {"m_minKeySize": "MinimumKeySize", "m_minSaltSize": "MinimumSaltSize"}


def base_fields(ctx, g):
    """{parameter of a base class's constructor: the getter that returns it}"""
    out = {}
    for b in g.blocks:
        for i in b:
            if i.op == "store":
                a, v = ctx.ex.val(g, i.raw[5]), ctx.ex.val(g, i.raw[4])
                if a[0] == "fld" and a[2] in GETTERS and v[0] == "arg": out[v[1]] = (a[2], GETTERS[a[2]])
    return out


def key(m): return re.sub(r"[^A-Za-z0-9:]+", "-", m)[:150]


def rates(P):
    out = set()

    def walk(e):
        if not isinstance(e, tuple): return
        if e and e[0] == "ld" and e[1][0] == "fld" and "Rate" in e[1][2]: out.add(e)
        for x in e: walk(x)
    for c in P.cond: walk(c)
    return out


def forwards(p, f):
    """hands its material to a function of the same name of the class"""
    for b in f.blocks:
        for i in b:
            if i.op in ("call", "invoke"):
                for t in p.callees(i):
                    g = p.funcs.get(t)
                    if g is not None and g is not f and g.base_nm == f.base_nm and g.cls == f.cls: return True
    return False


def upto(P, n):
    q = P.copy(); q.cond = dict(list(P.cond.items())[:n])
    return q


def run_C11(ctx):
    ctx.rule = ("On every path of an initialising function that ends normally: the key's size is checked before the key is first read; each read of a part lies inside the part and each copy inside its destination; "
                "the reads of each part the class takes cover it from its first to its last byte.")
    p = ctx.p; seen = set()
    for f, vecs in inits(p):
        ctx.count("initialisers")
        c = f.cls.split("::")[-1]; name = short(f).replace("CEX::", "")
        ok = []
        for keysize, ext in RUNS.get(c, ((None, None),)):
            x = KeySym(ctx, f); x.keysize = keysize; x.extended = ext
            P0 = sym.Path()
            for k, part in vecs.items(): P0.data[("is", ("arg", k))] = part; P0.size[("arg", k)] = ("sz", part)
            rs = x.run(f, [("arg", k) for k in range(f.nargs)], P0)
            one = [(P, x) for k, P, v in rs if k == "ret"]
            ctx.sample(f"{name}: {len(one)} paths, {x.steps} blocks")
            if not one: raise Broken(f"{f.short}: no path to its end")
            ok += one
        mins, legal, sizes = facts_of(ctx, f.cls)
        takes = TAKES.get(c)
        if takes is None: raise Broken(f"{f.short} is not in the table of key consumers")
        if not vecs: seen.add(c)

        def sub(e):
            if not isinstance(e, tuple): return e
            if e[0] == "size" and e[1][0] == "fld" and e[1][2] in sizes: return sizes[e[1][2]]
            if e[0] == "c" and p.funcs[e[1]].base_nm in mins and len(mins[p.funcs[e[1]].base_nm]) == 1:
                v = next(iter(mins[p.funcs[e[1]].base_nm]))
                if v[0] == "i": return v
            if e[0] == "lin":
                acc = I(e[1])
                for t, k in e[2]: acc = add(acc, ir.mul(I(k), sub(t)))
                return acc
            return e

        def norm(P, sub=sub):
            q = P.copy(); q.cond = {}
            for cnd, t in P.cond.items():
                e, tt = cnd, t
                while e[0] == "not": e, tt = e[1], not tt
                if e[0] == "cmp": q.cond[("cmp", e[1], sub(e[2]), sub(e[3]))] = tt
            q.data = P.data
            divs = set()

            def walk(e):
                if not isinstance(e, tuple): return
                if e and e[0] in ("div", "rem") and e[2][0] != "i": divs.add(("div", e[1], e[2]))
                for y in e: walk(y)
            for cnd in list(q.cond): walk(cnd)
            q.mem = {}
            for d in divs:
                # bounds of a quotient bound the dividend
                a, r = d[1], d[2]
                lo = max([k for k in (1, 2, 3) if entails(q, add(d, I(-k)))], default=0); hi = min([k for k in (0, 1, 2, 3) if entails(q, add(I(k), d, -1))], default=None)
                q.cond[("cmp", "uge", a, ir.mul(I(lo), r))] = True
                if hi is not None: q.cond[("cmp", "ult", a, ir.mul(I(hi + 1), r))] = True
                if lo == hi: q.mem[d] = I(lo)
            if q.mem: q.cond = {(c[0], c[1], subst(c[2], q.mem), subst(c[3], q.mem)) if c[0] == "cmp" else c: t for c, t in q.cond.items()}
            return q
        for P, x in ok:
            if entails(P, I(-1)): continue
            Q = norm(P)
            if entails(Q, I(-1)): Q = norm(P, lambda e: e)          # a loop over the key that was unrolled fewer times than the smallest key has bytes
            if entails(Q, I(-1)): continue
            M = Q.mem
            ctx.count("paths"); E = []
            for o, off, n, w, d, nc in P.ev:
                at = norm(upto(P, nc))
                E.append((o, subst(sub(off), M) if off else None, subst(sub(n), M) if n else None, w, d, at))
            for part in ("key", "nonce", "info"):
                S = x.sz(part)
                reads = [e for e in E if e[0] == part or (e[0][0] == "whole" and part in WHOLE.get(c, ("key", "info")))]
                # in bounds
                for o, off, n, w, d, at in reads:
                    if o != part: continue
                    ctx.count("obligations")
                    extra = []
                    if part == "key" and legal and ("legal", "key") in P.data: extra.append(add(S, I(-min(legal))))
                    if not (entails(at, add(add(S, off, -1), n, -1), None, extra) and entails(at, off, None, extra)):
                        ctx.report(key(f"{name} reads {show(n)} bytes at {show(off)} of the {part}, which may be shorter"), w, f"{name} reads {show(n)} bytes at {show(off)} of the {part}, which may be shorter")
                    if d is not None:
                        dv, doff, dsz = d[0], subst(sub(d[1]), M), sub(d[2]) if d[2] else None
                        if not entails(at, doff, None, extra): ctx.report(key(f"{name} copies the {part} to offset {show(doff)}, which may be negative"), w, f"{name} copies the {part} to offset {show(doff)}, which may be negative")
                        elif dsz is not None and dsz[0] == "size" and root(dv)[0] == "loc" and n[0] != "i":
                            # a local block buffer, which holds as many bytes as the rate
                            if not any(entails(at, add(add(t, n, -1), doff, -1), None, extra) for t in rates(at)): ctx.report(key(f"{name} copies {part} without a bound to a block buffer"), w, f"{name} copies {show(n)} bytes of the {part} into a buffer of one block, nothing bounds that")
                        elif dsz is not None and dsz[0] in ("i", "lin", "sz") and not entails(at, add(add(dsz, doff, -1), n, -1), None, extra):
                            ctx.report(key(f"{name} copies {show(n)} bytes of the {part} to offset {show(doff)} of {show(dsz)} bytes"), w, f"{name} copies {show(n)} bytes of the {part} to offset {show(doff)} of {show(dsz)} bytes")
                if (part not in takes if not vecs else part not in vecs.values()) or (part == "info" and x.extended is False): continue
                # of a legal size when it is taken first
                if part == "key" and reads:
                    ctx.count("obligations"); at = reads[0][5]
                    if vecs and forwards(p, f): continue
                    if not (("legal", "key") in P.data or entails(at, add(S, I(-16))) or any(entails(at, add(S, m, -1)) for m in mins.get("MinimumKeySize", ())) or entails(at, ir.mul(I(-1), S)) or any(k[0] == "lin" and k != add(S, I(-1)) and any(t == S and n > 0 for t, n in k[2]) for k in sym.known(at))):
                        ctx.report(key(f"{name} takes a key whose size it has not checked"), reads[0][3], f"{name} takes a key whose size it has not checked")
                # whole
                ctx.count("obligations")
                if any(e[0] != part for e in reads): continue
                pos = I(0); left = list(reads); full = entails(Q, add(pos, S, -1))
                while not full and left:
                    nx = next((e for e in left if e[1] == pos), None) or next((e for e in left if entails(Q, add(pos, e[1], -1))), None)
                    if nx is None: break
                    left.remove(nx)
                    end = add(nx[1], nx[2])
                    if end == pos or entails(Q, add(pos, end, -1)): continue
                    pos = end; full = entails(Q, add(pos, S, -1))
                if not full and CAPS.get((c, part)) and entails(Q, add(pos, I(-CAPS[(c, part)]))): full = True
                if not full and (c, part) in CAPS and any(e[1] == I(0) and e[4] is not None and (sub(e[4][2]) if e[4][2] else None) == e[2] for e in reads): full = True
                if not full: ctx.report(key(f"{name} takes a {part} of which it uses no more than {show(pos)} bytes on a path"), reads[-1][3] if reads else f.file, f"{name} takes a {part} of which it uses no more than {show(pos)} bytes on a path")
    ctx.floor("initialisers", 30); ctx.floor("obligations", 1500)
    miss = set(TAKES) - seen
    if miss: raise Broken(f"no Initialize found for {sorted(miss)}")


# the parts of the key set each class takes (a part it does not take plays no role in the construction)
ALL = ("key", "nonce", "info")
TAKES = {"CMAC": ("key", "info"), "GMAC": ("key", "nonce"), "HMAC": ("key",), "KMAC": ALL, "KPA": ("key", "nonce"), "Poly1305": ("key",), "HKDF": ALL, "KDF2": ALL, "PBKDF2": ALL, "SCBKDF": ALL,
         "SHAKE": ALL, "BCG": ALL, "CSG": ALL, "HCG": ALL, "CBC": ALL, "CFB": ALL, "CTR": ALL, "ECB": ("key", "info"), "ICM": ALL, "OFB": ALL, "GCM": ("key", "nonce"), "HBA": ALL, "RHX": ("key", "info"),
         "SHX": ("key", "info"), "CSX512": ALL, "ChaChaP20": ALL, "RCS": ALL, "RWS": ALL, "TSX256": ALL, "TSX512": ALL, "TSX1024": ALL}
# where the part is used up to a documented maximum: the size of the field it fills, or a number of bytes
CAPS = {("CSX512", "info"): 48, ("HCG", "nonce"): None, ("Poly1305", "key"): 32}
# what the component takes that a class hands its key set to: a block cipher, or the named
WHOLE = {"HKDF": ("key",)}
# block ciphers: legal key sizes of the standard and of the extended key schedule
SCHED = ((16, False), (24, False), (32, False), (32, True), (64, True), (128, True))
RUNS = {"RHX": SCHED, "SHX": SCHED}
