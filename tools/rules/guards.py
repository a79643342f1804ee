"""C04 initialization gating, C05 output range guards, C23 key-type and signer gating."""
import ir
from ir import I, add, show, root, mentions, Explorer
from frontend import Broken
from rules.aead import flags_of, evs, ev_add

GATED = {  # interface -> output functions that must refuse to run before initialization
    "CEX::Mac::IMac": ("Update", "Compute", "Finalize"),
    "CEX::Kdf::IKdf": ("Generate",),
    "CEX::Drbg::IDrbg": ("Generate",),
    "CEX::Cipher::Block::Mode::IAeadMode": ("Transform", "SetAssociatedData"),
    "CEX::Cipher::Stream::IStreamCipher": ("SetAssociatedData",),
    "CEX::Asymmetric::Sign::IAsymmetricSigner": ("Sign", "Verify"),
}


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


def is_out_type(t): return (t.endswith("&") or t.endswith("*")) and not t.startswith("const ")


def arr_params(f):
    """argument positions of the containers the function may write"""
    return [k for k, t in f.param_types() if t.endswith("&") and not t.startswith("const ") and "vector<" in t]


class GateX(Explorer):
    """explores a method with its own class's helpers in context; records writes to the caller's containers"""

    def __init__(self, p, ex, f, flags, bases=()):
        super().__init__(p, ex)
        self.f = f; self.cls = f.cls; self.flags = flags; self.outs = {("arg", k) for k in arr_params(f)}
        self.near = {f.cls} | set(bases)

    def relevant(self, e): return self.flags.get(e)

    def inline(self, fn, i, args, st):
        return fn.in_cex and (fn.cls in self.near or (fn.file == self.f.file and not fn.cls)) and len(fn.blocks) < 200

    def writes(self, fn, ts, n):
        if fn is None: return bool(ts) and ts[0].startswith("llvm.mem") and n == 0
        t = dict(fn.param_types()).get(n, "")
        if n == (1 if fn.sret else 0) and fn.cls and t.endswith("*") and (fn.nm.startswith("operator[]") or fn.base_nm in ir.PURE_STD or fn.base_nm == "at"): return False
        return (t.endswith("&") or t.endswith("*")) and not t.startswith("const ") or (fn.sret and n == 0)

    def on_call(self, i, ts, args, st, f):
        if i.callee == "g:__cxa_throw": return None
        fn = self.p.funcs.get(ts[0]) if ts else None
        if fn is not None and len(ts) == 1 and self.inline(fn, i, args, st): return None
        for n, a in enumerate(args):
            if root(a) in self.outs and self.writes(fn, ts, n):
                return [(self.wrote(st, i, fn, a), None)]
        return None

    def on_store(self, i, addr, val, st, f):
        if root(addr) in self.outs and addr not in self.outs: return self.wrote(st, i, None, addr)
        return st

    def wrote(self, st, i, fn, a): return ev_add(st, ("OUT", (fn.base_nm if fn is not None else "store",), i.where))

    def on_throw(self, i, ti, st, f): return ev_add(st, ("THROW", (ti or "?",), i.where))


def gated_methods(p):
    for base, names in sorted(GATED.items()):
        for c in sorted(p.subs.get(base, ())):
            for f in sorted(p.methods(c), key=lambda f: f.name):
                if f.base_nm in names and f.virt and len(f.sty) > 2: yield base, f


def allbases(p, c):
    out = set(); st = [c]
    while st:
        x = st.pop()
        for b in p.bases(x):
            if b not in out: out.add(b); st.append(b)
    return out


def run_C04(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("Every output function of a MAC, KDF, DRBG, AEAD block mode and signature scheme (and every stream cipher's SetAssociatedData) is explored with "
                "the object's initialized flag false: every path must throw a library exception and none may write the caller's array first; "
                "Sign with the signer flag false and Verify with it true must throw too.")
    ctx.assume = ["IsInitialized()/IsSigner() name the object's own state flags", "library exceptions derive from CryptoException (decided by C06)"]
    for base, f in gated_methods(p):
        ctx.count("gated functions")
        flags = flags_of(p, ex, f.cls)
        cases = [("uninitialized", {("init", False)})]
        if "Signer" in base:
            for g in p.methods(f.cls, "IsSigner"):
                e = ex.retexpr(g)
                if e is not None: flags[e] = "signer"
                flags[("c", g.name, (("arg", 0),), "bool")] = "signer"
            flags[("m", "IsSigner", (("arg", 0),), "bool")] = "signer"
            cases.append(("initialized for the other direction", {("init", True), ("signer", f.base_nm != "Sign")}))
        for label, pre in cases:
            x = GateX(p, ex, f, flags, allbases(p, f.cls))
            rs = x.explore(f, [("arg", k) for k in range(f.nargs)], frozenset(pre | {("ev", ())}))
            ctx.count("blocks explored", x.n)
            nthrow = 0
            for kind, st, rv in rs:
                ev = evs(st); ctx.count("paths")
                outs = [wh for k, a, wh in ev if k == "OUT"]
                if kind == "ret":
                    ctx.report(f"C04:{short(f)}:{label}:runs", f"{f.relfile}:{f.line}", f"{short(f)} returns normally while the object is {label}")
                else:
                    nthrow += any(k == "THROW" for k, a, wh in ev)
                    if outs: ctx.report(f"C04:{short(f)}:{label}:writes", outs[0], f"{short(f)} writes the caller's array before refusing to run while {label}")
            if not nthrow and not ctx.reports: ctx.report(f"C04:{short(f)}:{label}:nothrow", f"{f.relfile}:{f.line}", f"{short(f)} does not throw a library exception while {label}")
        ctx.sample(f"{short(f)}/{len(f.sty) - 2}")
    ctx.floor("gated functions", 60)


FILL = {
    "CEX::Drbg::IDrbg": ("Generate",), "CEX::Kdf::IKdf": ("Generate",), "CEX::Prng::IPrng": ("Generate",), "CEX::Provider::IProvider": ("Generate",),
    "CEX::Digest::IDigest": ("Finalize", "Compute"), "CEX::Mac::IMac": ("Finalize", "Compute"),
    "CEX::Prng::SecureRandom": ("Generate", "Fill"),
}


class FillX(GateX):
    """tracks the range guard size(out) - off >= need"""

    def __init__(self, p, ex, f, out, off, needs):
        super().__init__(p, ex, f, {}, allbases(p, f.cls))
        self.guarded = 0; self.outs = {("arg", out)}; self.out = ("arg", out); self.off = off; self.needs = needs

    def room(self): return add(("size", self.out), self.off, -1) if self.off is not None else ("size", self.out)

    def relevant(self, e):
        return None

    def assume_extra(self, e, truth, st):
        if e[0] == "not": return self.assume_extra(e[1], not truth, st)
        if e[0] != "cmp": return st
        k, a, b = e[1], e[2], e[3]
        if not truth: k = ir.NEG.get(k)
        # a k b holds here; want room >= need
        if k in ("ult", "ule", "slt", "sle"): a, b, k = b, a, {"ult": "ugt", "ule": "uge", "slt": "ugt", "sle": "uge"}[k]
        if k in ("uge", "ugt", "sge", "sgt", "eq"):
            pairs = [(a, b)] + ([(b, a)] if k == "eq" else [])
            for x, y in pairs:
                # everything after the check is inside the range it establishes: this path is done
                if any(self.covers(x, y, n) for n in self.needs): self.guarded += 1; return None
        return st

    def covers(self, x, y, n):
        """x >= y entails room >= n"""
        if x == self.room() and y == n: return True
        # size(out) >= off + n
        if self.off is not None and x == ("size", self.out) and y == add(self.off, n): return True
        return False

    def wrote(self, st, i, fn, a):
        return ev_add(st, ("BAD", (fn.base_nm if fn is not None else "store",), i.where))

    def on_call(self, i, ts, args, st, f):
        fn = self.p.funcs.get(ts[0]) if ts else None
        # containers built with a known size, and whole-container moves of such a container into the range
        if fn is not None and fn.cls.startswith("std::vector") and fn.base_nm in ("vector", "resize") and len(args) >= 2 and dict(fn.param_types()).get(1, "").replace("const ", "") == "unsigned long long":
            return [(frozenset(x for x in st if x[0] != ("sz", args[0])) | {(("sz", args[0]), args[1])}, None)]
        if fn is not None and len(args) == 5 and args[2] == self.out and fn.base_nm in ("SecureMove", "Move", "Copy", "SecureCopy") and args[3] == (self.off or I(0)):
            ln = args[4]
            for k, b in st:
                if ln[0] == "size" and k == ("sz", ln[1]): ln = b
            if ln == self.room(): return [(ev_add(st, ("OUT", ("whole range",), i.where)), None)]
        if fn is not None and fn.virt and fn.base_nm in ("Generate", "Finalize", "Compute") and self.out in args and fn.cls != self.cls:
            # handed on, range and all, to another fill function of the same contract
            rest = args[args.index(self.out) + 1:]
            if (self.off is None or (rest and rest[0] == self.off)): return [(ev_add(st, ("OUT", ("delegated",), i.where)), None)]
        return super().on_call(i, ts, args, st, f)


def run_C05(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("In every random, key-derivation, digest and MAC function that fills a range of a caller's container, each path reaches the first write to that container "
                "only after the condition 'size - offset >= bytes written' (the requested length, or the digest/tag size) was established by a check that throws otherwise.")
    ctx.assume = ["the caller's offset lies inside the container (size - offset does not wrap)", "a range handed on unchanged to another function of the same interface is guarded there"]
    for base, names in sorted(FILL.items()):
        for c in sorted(p.subs.get(base, ())) or [base]:
            for f in sorted(p.methods(c), key=lambda f: f.name):
                if f.base_nm not in names or not (f.virt or c == base): continue
                outs = arr_params(f)
                if len(outs) != 1: continue
                out = outs[0]
                pts = f.param_types(); pos = [k for k, _ in pts].index(out)
                scal = [k for k, t in pts[pos + 1:] if t.replace("const ", "") == "unsigned long long"]
                needs = set()
                if f.base_nm in ("Generate", "Fill"):
                    if len(scal) != 2: continue
                    off = ("arg", scal[0]); needs.add(("arg", scal[1]))
                else:
                    off = ("arg", scal[0]) if scal else None
                    for nm in ("DigestSize", "TagSize"):
                        for g in [g for cc in [c] + sorted(allbases(p, c)) for g in p.methods(cc, nm)]:
                            e = ex.retexpr(g)
                            if e is not None: needs.add(e)
                        needs.add(("m", nm, (("arg", 0),), ""))
                ctx.count("range-filling functions")
                x = FillX(p, ex, f, out, off, needs)
                rs = x.explore(f, [("arg", k) for k in range(f.nargs)], frozenset({("ev", ())}))
                ctx.count("blocks explored", x.n)
                nret = nout = 0
                for kind, st, rv in rs:
                    for k, a, wh in evs(st):
                        if k == "BAD": ctx.report(f"C05:{short(f)}:{'secure' if 'ecure' in pts[pos][1] or 'ocking' in pts[pos][1] else 'std'}", wh, f"{short(f)} writes the caller's container ({a[0]}) on a path where 'size - offset >= needed bytes' was not checked")
                        if k == "OUT": nout += 1
                    nret += kind == "ret"
                ctx.count("paths", len(rs))
                ctx.count("range checks reached", x.guarded); ctx.count("delegations", nout)
                if not x.guarded and not nout and not ctx.reports: ctx.count("functions that write nothing themselves")
                ctx.sample(f"{short(f)}({pts[pos][1][:40]}): {x.guarded} guarded, {nout} delegated")
    fill_temporaries(ctx)
    ctx.floor("range-filling functions", 60); ctx.floor("fills of a local temporary", 8)


GENS = ("CEX::Drbg::IDrbg", "CEX::Kdf::IKdf", "CEX::Prng::IPrng", "CEX::Provider::IProvider")


def local_sizes(p, ex, f):
    """local containers of f -> the sizes they are constructed or resized with"""
    sizes = {}
    for i in f.calls:
        ts = p.callees(i) or []
        fn = p.funcs.get(ts[0]) if ts else None
        if fn is None or not fn.cls.startswith("std::vector") or fn.base_nm not in ("vector", "resize") or len(i.args) < 2: continue
        if dict(fn.param_types()).get(1, "").replace("const ", "") != "unsigned long long": continue
        b = ex.val(f, i.args[0])
        if b[0] == "loc": sizes.setdefault(b, []).append((fn.base_nm, ex.val(f, i.args[1])))
    return sizes


def fill_temporaries(ctx):
    p, ex = ctx.p, ctx.ex
    gen = set()
    for b in GENS: gen |= {b} | set(p.subs.get(b, ()))
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.in_cex or f.cls.startswith("std::"): continue
        sizes = None
        for i in f.calls:
            ts = p.callees(i) or []
            fn = p.funcs.get(ts[0]) if ts else None
            if fn is None or fn.cls not in gen or fn.base_nm not in ("Generate", "Expand"): continue
            pts = fn.param_types()
            j = next((j for j, (k, t) in enumerate(pts) if t.endswith("&") and not t.startswith("const ") and "vector<" in t), None)
            if j is None or j + 2 >= len(pts) or any(pts[j + d][1].replace("const ", "") != "unsigned long long" for d in (1, 2)): continue
            ctx.count("range fills by a caller")
            if sizes is None: sizes = local_sizes(p, ex, f)
            b = ex.val(f, i.args[pts[j][0]])
            if b not in sizes: continue
            ctx.count("fills of a local temporary")
            end = add(ex.val(f, i.args[pts[j + 1][0]]), ex.val(f, i.args[pts[j + 2][0]]))
            ok = end == ("size", b)
            for _, s in sizes[b]:
                d = add(s, end, -1)
                if d[0] == "i" and d[1] >= 0: ok = True
            if ex_div(end, b): ok = True
            if not ok:
                ctx.report(f"C05:{short(f)}:temporary", i.where, f"{short(f)} fills a temporary of {show(sizes[b][-1][1])} bytes up to {show(end)}: the range requested is not the range that was allocated")


def ex_div(end, b):
    """a fraction of the container's own size"""
    return end[0] in ("div", "lshr") and end[1] == ("size", b)
