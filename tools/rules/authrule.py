"""C20 decapsulation gating, C21 signature verification gating."""
import ir
from ir import I, add, show, root, mentions, Explorer
from frontend import Broken
from rules.aead import evs, ev_add
from rules.kernels import comparer_loop, ispt

PRIM = ("Compare", "Verify", "VerifyRaw", "VerifyAvx2", "Sc25519Verify", "CompareEqual", "ConstantTimeCompare")


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


def prims(ctx):
    """comparison primitives: function name -> (array args, length arg, value meaning equal)"""
    p, ex = ctx.p, ctx.ex
    out = {}
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.in_cex or f.cls.startswith("std::") or f.virt or f.base_nm not in PRIM: continue
        pts = f.param_types()
        arr = [k for k, t in pts if ispt(t)]
        sc = [k for k, t in pts if not ispt(t)]
        if len(arr) != 2 or len(sc) not in (1, 3) or f.rt == "void": continue
        eq = ("T",) if f.rt == "i1" else I(0)
        offs = {arr[0]: sc[0], arr[1]: sc[1]} if len(sc) == 3 else {a: None for a in arr}
        out[f.name] = (arr, sc[-1], eq, offs)
        if f.base_nm != "VerifyAvx2":
            ok, why = comparer_loop(p, ex, f, arr, offs, sc[-1])
            if not ok: ctx.report(f"{ctx.pid}:{short(f)}:range", f"{f.relfile}:{f.line}", f"{short(f)}: {why}")
        ctx.count("comparison primitives")
    return out


def reachers(p, targets):
    """functions of the library from which a target is reachable by direct calls"""
    out = set(targets); work = list(targets)
    while work:
        t = work.pop()
        for c in p.callers.get(t, ()):
            if isinstance(c.callee, str) and c.fn.in_cex and c.fn.name not in out: out.add(c.fn.name); work.append(c.fn.name)
    return out


class VerX(Explorer):
    def __init__(self, p, ex, f, prim, reach, sig, out, sizes):
        super().__init__(p, ex)
        self.f = f; self.prim = prim; self.reach = reach; self.sig = sig; self.out = out; self.sz = sizes; self.shortuse = []

    def relevant(self, e):
        return e if self.sig is not None and e[0] == "cmp" and mentions(e, lambda x: x == ("size", self.sig)) else None

    def inline(self, fn, i, args, st): return fn.name in self.reach and fn.name not in self.prim

    def assume_extra(self, e, truth, st):
        while e[0] == "not": e = e[1]; truth = not truth
        if e[0] == "cmp":
            k, a, b = e[1], e[2], e[3]
            if not truth: k = ir.NEG.get(k)
            if k in ("ule", "ult"): a, b, k = b, a, {"ule": "uge", "ult": "ugt"}[k]
            if k in ("uge", "ugt") and a == ("size", self.sig):
                e = ("LEN", (b if k == "uge" else add(b, I(1)),), "")
                return ev_add(st, e) if e not in evs(st) else st
        return st

    def on_call(self, i, ts, args, st, f):
        if ts and len(ts) == 1 and ts[0] in self.prim:
            arr, ln, eq, offs = self.prim[ts[0]]
            n = args[ln]; why = ""
            if args[arr[0]] == args[arr[1]]: why = "compares a value with itself"
            elif not self.fullen(f, [args[a] for a in arr], [args[o] if o is not None else I(0) for o in (offs[a] for a in arr)], n): why = f"compares only {show(n)} bytes"
            ne = ("F",) if eq == ("T",) else I(1)
            return [(self.cmp(st, True, why, i), eq), (self.cmp(st, False, why, i), ne)]
        if self.out is not None and f is self.f and any(root(a) == self.out for a in args):
            fn = self.p.funcs.get(ts[0]) if ts else None
            if fn is None or not (fn.base_nm in ir.PURE_STD or fn.base_nm.startswith("operator[]")):
                st = ev_add(st, ("OUT", (fn.base_nm if fn else "",), i.where)) if not any(x[0] == "OUT" for x in evs(st)) else st
                if fn is not None and self.inline(fn, i, args, st): return None
                return [(st, None)]
        for a in args: self.derived(a, st, i)
        fn = self.p.funcs.get(ts[0]) if ts else None
        if fn is not None and fn.cls.startswith("std::vector") and fn.base_nm in ("vector", "resize") and len(args) >= 2 and dict(fn.param_types()).get(1, "").replace("const ", "") == "unsigned long long":
            self.sz.setdefault(args[0], set()).add(args[1])
        return None

    def on_store(self, i, addr, val, st, f):
        self.derived(val, st, i)
        return st

    def derived(self, a, st, i):
        """a size computed by subtracting from the signature's length needs a check of that length first"""
        if self.sig is None: return
        c, d = ir.lin_of(a)
        if d.get(("size", self.sig)) != 1 or not (c < 0 or any(v < 0 for v in d.values())): return
        rest = [add(add(a, ("size", self.sig), -1), x[1][0]) for x in evs(st) if x[0] == "LEN"]
        if not any(r[0] == "i" and r[1] >= 0 for r in rest): self.shortuse.append((i.where, a))

    def cmp(self, st, same, why, i): return ev_add(st, ("CMP", (same, why), i.where))

    def fullen(self, f, arrs, offs, n):
        """n covers one of the compared containers to its end"""
        for a, o in zip(arrs, offs):
            if add(("size", a), o, -1) == n: return True
            for s in self.sz.get(a, ()):
                if add(s, o, -1) == n: return True
        return False


def run_C21(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("Each signature scheme's Verify is explored with everything it calls on the way to a comparison: every path that returns true passed a true, full-length comparison of a value "
                "recomputed from the public key with the value in the signature (or public key), every path on which such a comparison failed returns false or throws, and the signature's "
                "length is tested before sizes are derived from it by subtraction.")
    ctx.assume = ["the values compared are computed correctly (not decided)"]
    prim = prims(ctx); reach = reachers(p, prim)
    for c in sorted(p.subs.get("CEX::Asymmetric::Sign::IAsymmetricSigner", ())):
        for f in p.methods(c, "Verify"):
            if not f.virt or f.rt != "i1": continue
            ctx.count("verifiers")
            sig = ("arg", 1)
            x = VerX(p, ex, f, prim, reach, sig, None, {})
            ntrue = 0
            for kind, st, rv in x.explore(f, [("arg", k) for k in range(f.nargs)], frozenset({("ev", ())})):
                ctx.count("paths")
                if kind != "ret": continue
                cm = [(a, wh) for k, a, wh in evs(st) if k == "CMP"]
                if rv is not None and rv[0] in ("cmp", "not"):
                    d = x.decide(rv, st)
                    if d is not None: rv = ("T",) if d else ("F",)
                if rv in (("F",), I(0)): continue
                if rv == I(1): rv = ("T",)
                good = [a for a, wh in cm if a[0] and not a[1]]
                if rv == ("T",): ntrue += 1
                if rv != ("T",):
                    ctx.report(f"C21:{short(f)}:result", f"{f.relfile}:{f.line}", f"{short(f)} returns {show(rv) if rv else None}, which is not decided by a comparison of the signature"); continue
                if not good:
                    part = [(a[1], wh) for a, wh in cm if a[0] and a[1]]
                    ctx.report(f"C21:{short(f)}:true", part[0][1] if part else f"{f.relfile}:{f.line}", f"{short(f)} can return true " + (f"after a comparison that {part[0][0]}" if part else "without a successful comparison"))
                if any(not a[0] for a, wh in cm):
                    wh = [wh for a, wh in cm if not a[0]][0]
                    ctx.report(f"C21:{short(f)}:ignored", wh, f"{short(f)} can return true although this comparison failed")
            if not ntrue: ctx.report(f"C21:{short(f)}:never", f"{f.relfile}:{f.line}", f"no analysed path of {short(f)} accepts a signature by a full comparison")
            for wh, a in x.shortuse:
                ctx.report(f"C21:{short(f)}:short:{wh.split(':')[0]}", wh, f"{short(f)}: a size ({show(a)}) is derived from the signature's length before the length was checked")
            ctx.count("blocks explored", x.n); ctx.count("accepting path classes", ntrue)
            ctx.sample(short(f))
    ctx.floor("verifiers", 4); ctx.floor("comparison primitives", 3)


class DecX(VerX):
    pass


def depends(ex, f, v, seen=None):
    """ids of instructions the value is computed from inside f (phis followed)"""
    seen = set() if seen is None else seen
    st = [v]
    while st:
        x = st.pop()
        if not isinstance(x, int) or x in seen: continue
        seen.add(x)
        d = f.defs.get(x)
        if d is None or d.op in ("alloca",): continue
        for o in ir.operands(d): st.append(o)
        if d.op == "load": seen.add(("mem", ex.val(f, d.raw[4])))
    return seen


def run_C20(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("Each Decapsulate interface method is explored with its cores: when the core reports failure the method returns false (or throws) and does not touch the caller's shared secret; it "
                "returns true only with the core's success. In each core the result is decided by a full comparison of the re-computed with the received cipher-text (or confirmation) and, before "
                "the session key is derived from the key material, the same verdict selects between the decrypted value and the private rejection value.")
    ctx.assume = ["the selection primitives are branch-free and correct (C02)", "a core is the static function that an interface method calls under its own name"]
    prim = prims(ctx)
    for c in sorted(p.subs.get("CEX::Asymmetric::Encrypt::IAsymmetricCipher", ())):
        for f in p.methods(c, "Decapsulate"):
            if not f.virt or f.rt != "i1": continue
            ctx.count("decapsulation methods")
            cores = {}
            for i in f.calls:
                ts = p.callees(i) or []
                g = p.funcs.get(ts[0]) if len(ts) == 1 else None
                if g is not None and g.in_cex and g.rt == "i1" and not g.virt and any(x == ex.val(f, a) and x[0] == "arg" and x[1] == 1 for a in i.args for x in [("arg", 1)]): cores[g.name] = g
            if not cores: raise Broken(f"no decapsulation core found below {short(f)}")

            class X(VerX):
                def on_call(self, i, ts, args, st, fn):
                    if ts and len(ts) == 1 and ts[0] in cores:
                        return [(ev_add(st, ("CORE", (True,), i.where)), ("T",)), (ev_add(st, ("CORE", (False,), i.where)), ("F",))]
                    return super().on_call(i, ts, args, st, fn)
            x = X(p, ex, f, {}, set(cores), None, ("arg", 2), {})
            for kind, st, rv in x.explore(f, [("arg", k) for k in range(f.nargs)], frozenset({("ev", ())})):
                ctx.count("paths")
                ev = evs(st); ok = [a[0] for k, a, wh in ev if k == "CORE"]; outs = [wh for k, a, wh in ev if k == "OUT"]
                if rv == I(0): rv = ("F",)
                if rv == I(1): rv = ("T",)
                good = bool(ok) and all(ok)
                if kind == "ret" and not good and rv != ("F",):
                    ctx.report(f"C20:{short(f)}:result", f"{f.relfile}:{f.line}", f"{short(f)} does not report the failure of its core ({show(rv) if rv else rv})")
                if kind == "ret" and good and rv == ("F",): pass
                if not good and outs: ctx.report(f"C20:{short(f)}:secret", outs[0], f"{short(f)} writes the caller's shared secret although decapsulation failed")
            ctx.sample(short(f))
            for g in sorted(cores.values(), key=lambda g: g.name): core(ctx, g, prim)
    ctx.floor("decapsulation methods", 2); ctx.floor("decapsulation cores", 6)


def core(ctx, f, prim):
    p, ex = ctx.p, ctx.ex
    ctx.count("decapsulation cores")
    ret = [i for i in f.insts if i.op == "ret" and i.raw[3] is not None]
    verd = []      # instructions that are a verdict over received data
    for i in f.calls:
        ts = p.callees(i) or []
        if len(ts) == 1 and ts[0] in prim:
            arr, ln, eq, offs = prim[ts[0]]
            n = ex.val(f, i.args[ln]); av = [ex.val(f, i.args[a]) for a in arr]
            sizes = {}
            for j in f.calls:
                g = p.funcs.get((p.callees(j) or [""])[0])
                if g is not None and g.cls.startswith("std::vector") and g.base_nm in ("vector", "resize") and len(j.args) >= 2:
                    sizes.setdefault(ex.val(f, j.args[0]), set()).add(ex.val(f, j.args[1]))
            if not any(n == ("size", a) or n in sizes.get(a, ()) for a in av):
                ctx.report(f"C20:{short(f)}:partial", i.where, f"{short(f)} compares only {show(n)} bytes of the re-computed cipher-text")
            verd.append(i)
    for l in f.loops:
        # an OR-XOR accumulator over a constant range
        for i in f.blocks[l["h"]]:
            if i.op != "phi": continue
            for v, pb in i.raw[4]:
                if pb in l["bl"]:
                    from rules.kernels import ors
                    for xr in ors(ex.val(f, v), ("v", f.name, i.id)):
                        if xr[0] == "xor" and len(xr) == 3 and all(e[0] == "ld" for e in xr[1:]):
                            n = full_loop(p, ex, f, l, xr)
                            if n is None or n is True: verd.append(i)
                            if n is not True:
                                ctx.report(f"C20:{short(f)}:partial", f"{f.relfile}:{f.blocks[l['h']][-1].line}", f"{short(f)} compares only part of the confirmation value (loop count {l['bt']})")
    # a decoder that reports failure as a number
    dec = [i for i in f.calls if i.id >= 0 and (g := p.funcs.get((p.callees(i) or [""])[0])) is not None and g.in_cex and g.base_nm.startswith("Decrypt") and g.rt in ("i32", "i8", "i1", "i64")]
    if not verd: ctx.report(f"C20:{short(f)}:nocompare", f"{f.relfile}:{f.line}", f"{short(f)} never compares what it re-computed with what it received"); return
    for r in ret:
        dp = depends(ex, f, r.raw[3])
        for i in verd + dec:
            if i.id not in dp: ctx.report(f"C20:{short(f)}:result", r.where, f"{short(f)}: the result does not depend on the verdict at line {i.line}")
        zero_is_success(ctx, f, r, verd + dec)
    # the session key: last expansion into the shared secret (the last reference parameter that is not const)
    outs = [k for k, t in f.param_types() if t.endswith("&") and "vector<unsigned char" in t and not t.startswith("const ")]
    if not outs: return
    out = ("arg", outs[-1])
    xof = [i for i in f.calls if any(ex.val(f, a) == out for a in i.args) and (g := p.funcs.get((p.callees(i) or [""])[0])) is not None and g.in_cex and not g.cls.startswith("std::")]
    if not xof: ctx.report(f"C20:{short(f)}:nokey", f"{f.relfile}:{f.line}", f"{short(f)} does not derive the shared secret"); return
    for k in xof:
        src = [root(ex.val(f, a)) for a in k.args if root(ex.val(f, a))[0] == "loc"]
        if not selected(p, ex, f, k, src, verd + dec):
            ctx.report(f"C20:{short(f)}:implicit", k.where, f"{short(f)} derives the shared secret from material that was not replaced by the rejection value under the verdict")
    ctx.count("verdicts", len(verd) + len(dec))


def full_loop(p, ex, f, l, xr):
    """the loop runs over a whole local container"""
    bt = l["bt"]
    if not bt.isdigit(): return None
    sizes = {}
    for j in f.calls:
        g = p.funcs.get((p.callees(j) or [""])[0])
        if g is not None and g.cls.startswith("std::vector") and g.base_nm == "vector" and len(j.args) >= 2:
            e = ex.val(f, j.args[1])
            if e[0] == "i": sizes[ex.val(f, j.args[0])] = e[1]
    for e in xr[1:]:
        s = sizes.get(root(e))
        if s is not None: return int(bt) == s
    return None


def zero_is_success(ctx, f, r, verd):
    """the verdicts reach the result only through or/add and a comparison with zero"""
    ex = ctx.ex
    e = ex.val(f, r.raw[3])
    neg = 0
    while e[0] == "not": e = e[1]; neg += 1
    if e[0] == "cmp" and e[3] == I(0):
        if (e[1] == "eq") != (neg % 2 == 0):
            ctx.report(f"C20:{short(f)}:inverted", r.where, f"{short(f)} reports success when the comparison found a difference")
        ok = e[1] in ("eq", "ne")
        if not ok: ctx.report(f"C20:{short(f)}:result", r.where, f"{short(f)}: the result {show(e)} is not 'no difference found'")


def selected(p, ex, f, k, src, verd):
    """between the verdict and the key derivation the source of the key is rewritten under the verdict"""
    got = set()
    for i in f.insts:
        if i.bb != k.bb and k.bb not in f.reach(i.bb): continue
        if i.bb == k.bb and i.ix > k.ix: continue
        if i.is_call and i is not k:
            g = p.funcs.get((p.callees(i) or [""])[0])
            if g is None or not g.in_cex or g.cls.startswith("std::"): continue
            if not any(root(ex.val(f, a)) in src for a in i.args): continue
            for a in i.args:
                if isinstance(a, int): got |= depends(ex, f, a)
        if i.op == "store" and isinstance(i.raw[4], int):
            # possibly through a pointer that walks through the container
            r0 = root(ex.val(f, i.raw[5]))
            if r0 in src or (r0[0] == "v" and any(x in src for x in ptr_roots(ex, f, i.raw[5]))): got |= depends(ex, f, i.raw[4])
    return all(v.id in got for v in verd)


def ptr_roots(ex, f, v, seen=()):
    e = root(ex.val(f, v))
    if e[0] == "v" and e[1] == f.name and e[2] not in seen:
        d = f.defs.get(e[2])
        if d is not None and d.op == "phi":
            out = set()
            for x, _ in d.raw[4]: out |= ptr_roots(ex, f, x, seen + (e[2],))
            return out
    return {e}
