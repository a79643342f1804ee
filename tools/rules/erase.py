"""C09 secrets are erased: the secure allocator, the erase primitives, and the destructors of state objects."""
import re
import ir
from ir import I, add, mul, show, root, mentions
from frontend import Broken

SCOPE = ("CEX::Cipher::", "CEX::Digest::", "CEX::Mac::", "CEX::Kdf::", "CEX::Drbg::", "CEX::Prng::", "CEX::Asymmetric::", "CEX::IO::SecureStream", "CEX::Provider::")
# containers that hold public values only: legal parameter sets, CPU and tree configuration, algorithm labels
PUBLIC_ELEMENT = ("SymmetricKeySize", "SHA2Params", "BlakeParams", "SkeinParams", "KeccakParams")
PUBLIC_FIELD = ("m_x86CpuFlags", "m_treeSchema", "m_dstCode")
CLEARERS = ("Clear", "ClearRaw", "Erase", "SecureErase", "SecureClear")
PRIMS = ("CEX::Tools::MemoryTools", "CEX::SecureMemory", "CEX::Tools::IntegerTools", "CEX", "")
SHRINK = ("clear", "resize", "assign", "swap", "shrink_to_fit", "operator=")
CONT = re.compile(r"^(std::vector<|std::array<|.*\[\d+\]$|SecureVector<)")


def is_container(t): return bool(CONT.match(t)) and "unique_ptr" not in t


def elem_size(p, t):
    m = re.match(r"std::(?:vector|array)<(.*)", t)
    if not m: return None
    e = m.group(1)
    for k, n in (("unsigned char", 1), ("signed char", 1), ("char", 1), ("bool", 1), ("unsigned short", 2), ("short", 2), ("unsigned long long", 8), ("long long", 8), ("unsigned int", 4), ("int", 4)):
        if re.match(re.escape(k) + r"\b[ ]*[,>]", e + ",") or e.startswith(k + ","): return n
    if e.startswith("__attribute__((__vector_size__(2 * sizeof(long long))))"): return 16
    if e.startswith("__attribute__((__vector_size__(4 * sizeof(long long))))"): return 32
    for n, t2 in p.types.items():
        if e.startswith(n + ",") or e.startswith(n + ">"): return t2.get("s") or t2.get("sz")
    return None


def elem_bytes(p, t):
    m = re.match(r"std::(?:vector|array)<(std::array<.*?>)(?:,|>)", t)
    return array_bytes(p, m.group(1)) if m else elem_size(p, t)


def array_bytes(p, t):
    m = re.match(r"std::array<(.*), (\d+)(?:ULL)?>$", t)
    if not m: return None
    s = elem_size(p, t)
    return s * int(m.group(2)) if s else None


class Dtor:
    def __init__(self, ctx):
        self.ctx = ctx; self.p = ctx.p; self.ex = ctx.ex

    def clears(self, f, subst, guards=(), depth=0, shr=None):
        """(address, length or None for whole, guard conditions, shrunk before) of every clear in f and its same-class helpers"""
        p, ex = self.p, self.ex
        out = []; local = []
        shr = set(shr or ())
        for i in f.insts:
            if i.op == "store" and i.raw[4] in ("i:0", "null"):
                out.append((ex.val(f, i.raw[5], None, subst), "store", self.guards(f, i.bb, subst) + guards, i.where, False)); continue
            if not i.is_call: continue
            ts = p.callees(i) or []
            if len(ts) != 1: continue
            g = p.funcs.get(ts[0]); nm = g.base_nm if g else ts[0]
            a = [ex.val(f, x, None, subst) for x in i.args]
            if g is not None and g.cls.startswith("std::vector") and nm in SHRINK and a:
                local.append((a[0], i)); continue
            if (nm in CLEARERS and g and g.cls in PRIMS) or nm.startswith("llvm.memset"):
                ln = None
                if nm.startswith("llvm.memset"): ln = a[2] if a[1] == I(0) else I(-1)
                elif nm == "Clear" and len(a) == 3: ln = a[2] if a[1] == I(0) else I(-1)
                elif nm in ("ClearRaw", "Erase") and len(a) == 2: ln = a[1]
                before = any(b == a[0] and self.precedes(f, s, i) for b, s in local) or a[0] in shr
                out.append((a[0], ln, self.guards(f, i.bb, subst) + guards, i.where, before))
            elif g and g.in_cex and (g.cls == f.cls or not g.cls) and depth < 3:
                sh = {b for b, s in local if self.precedes(f, s, i)} | shr
                out += self.clears(g, a, self.guards(f, i.bb, subst) + guards, depth + 1, sh)
        return out

    def onceflag(self, cls, g, nm):
        """a flag of the object that is only ever set where the member is cleared too"""
        while g[0] == "not": g = g[1]
        if g[0] != "ld" or g[1][0] != "fld" or g[1][1] != ("arg", 0): return False
        flag = g[1][2]
        for f in self.p.methods(cls):
            if f.base_nm == cls.split("::")[-1]: continue
            sets = [i for i in f.insts if i.op == "store" and self.ex.val(f, i.raw[5]) == g[1] and i.raw[4] != "i:0"]
            if not sets: continue
            cl = {i.bb for i in f.calls for t in (self.p.callees(i) or []) if t in self.p.funcs and self.p.funcs[t].base_nm in CLEARERS and fieldof(self.ex.val(f, i.args[0])) == nm}
            if any(s.bb not in cl and not any(c in f.reach(s.bb) for c in cl) for s in sets): return False
        return True

    def precedes(self, f, a, b):
        if a.bb == b.bb: return a.ix < b.ix
        return b.bb in f.reach(a.bb) and a.bb not in f.reach(b.bb)

    def guards(self, f, bb, subst):
        """conditions that decide whether block bb runs"""
        out = []
        for k, blk in enumerate(f.blocks):
            t = blk[-1]
            ss = [s for s in f.succs(k) if not (t.op == "invoke" and s == t.unwind)]
            if len(ss) < 2 or k in f.heads: continue
            r = [bb == s or bb in f.reach(s) for s in ss]
            if any(r) and not all(r) and bb in f.reach(k): out.append(self.ex.val(f, t.raw[3], None, subst))
        return tuple(out)


def full(p, addr, ln, ftype):
    if ln is None: return True
    if ln == "store": return True
    if addr[0] == "el" and not (addr[2] == I(0) and ln[0] != "i"):
        # one element of the container: the element's own bytes
        es = elem_bytes(p, ftype)
        return es is not None and ln == I(es)
    ab = array_bytes(p, ftype)
    if ab is not None: return ln == I(ab)
    es = elem_size(p, ftype)
    if es is None: return mentions(ln, lambda e: e[0] == "size")
    fa = addr[1] if addr[0] == "el" and addr[2] == I(0) else addr
    return ln == mul(I(es), ("size", fa))


def secret_fields(p, n):
    for m in p.tfields(n):
        nm, ty = m[1], m[2]
        if not is_container(ty.replace("const ", "")): continue
        if ty.startswith("const "): continue
        el = re.sub(r"^(std::vector<|std::array<)", "", ty)
        if nm in PUBLIC_FIELD or any(x in el.split(",")[0] for x in PUBLIC_ELEMENT): continue
        if "basic_string" in el.split(",")[0]: continue
        yield nm, ty


def run_C09(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("(a) every deallocation of a secure container reaches the locking allocator with the whole block, which erases all Elements*ElementSize bytes before the block is "
                "freed on every path, through volatile stores; (b) the clearing helpers write zeroes over exactly the requested range; (c) the destructor of every cipher, digest, MAC, KDF, "
                "generator and key class clears each container member that is not a secure container over its full byte size, unconditionally (a test of the member itself excepted) and before emptying it.")
    ctx.assume = ["members holding public values are exempt: legal key sizes, CPU flags, tree parameters", "containers whose elements are library classes are erased by their elements' destructors (checked per class)"]
    allocator(ctx); primitives(ctx)
    D = Dtor(ctx)
    selfclean = {}
    for n in sorted(p.types):
        if not n.startswith(SCOPE) or "(anon" in n: continue
        fs = list(secret_fields(p, n))
        if not fs: continue
        ds = [f for f in p.methods(n) if f.base_nm.startswith("~") and "D2Ev" in f.name]
        plain = [(a, b) for a, b in fs if "SecureAllocator" not in b]
        ctx.count("secure container members", len(fs) - len(plain))
        for nm, ty in plain:
            el = re.match(r"std::(?:vector|array)<(CEX::[\w:]+)", ty)
            if el and el.group(1) in p.types and any(g.base_nm.startswith("~") for g in p.methods(el.group(1))):
                ctx.count("members erased by their elements"); continue
            if not ds:
                if implicit_only(p, n): ctx.count("plain aggregates without destructor"); continue
                continue
            ctx.count("plain container members")
            for d in ds:
                best = None
                for addr, ln, gs, wh, before in D.clears(d, [("arg", 0)]):
                    fld = fieldof(addr)
                    if fld != nm: continue
                    why = None
                    if before: why = "after it was emptied"
                    elif not full(p, addr, ln, ty): why = f"only over {show(ln)} bytes"
                    else:
                        bad = [g for g in gs if not mentions(g, lambda e: e[0] == "fld" and e[2] == nm) and not nullcheck(g) and not D.onceflag(n, g, nm)]
                        if bad: why = f"only when {show(bad[0])}"
                    if why is None: best = "ok"; break
                    best = (why, wh)
                if best != "ok":
                    msg = f"the destructor of {n} does not clear {nm}" if best is None else f"the destructor of {n} clears {nm} {best[0]}"
                    ctx.report(f"C09:{n}:{nm}", best[1] if best else f"{d.relfile}:{d.line}", msg + ": the memory is released with its content")
            ctx.sample(f"{n}.{nm}: {ty[:60]}")
    ctx.floor("plain container members", 60); ctx.floor("secure container members", 40)


def implicit_only(p, n): return True


def nullcheck(g):
    while g[0] == "not": g = g[1]
    return g[0] == "cmp" and g[1] in ("eq", "ne") and g[3] == I(0) and g[2][0] in ("up", "ld", "arg")


def fieldof(e):
    while e[0] in ("el", "off", "ld", "up") or (e[0] == "fld" and e[2].startswith("_M")):
        e = e[1]
    return e[2] if e[0] == "fld" else None


def allocator(ctx):
    p, ex = ctx.p, ctx.ex
    n = 0
    deal = p.by_short.get("CEX::Tools::LockingAllocator::Deallocate", [])
    if not deal: raise Broken("no LockingAllocator::Deallocate")
    for f in p.funcs.values():
        if f.cls.startswith("CEX::SecureAllocator<") and f.base_nm == "deallocate":
            n += 1
            fsz = None
            cs = [(i, [ex.val(f, x) for x in i.args]) for i in f.calls if (p.callees(i) or [""])[0] == deal[0].name]
            if len(cs) != 1 or len(f.blocks) != 1:
                ctx.report(f"C09:{f.cls}:deallocate", f"{f.relfile}:{f.line}", f"{f.cls}::deallocate does not hand the block to the erasing allocator on every path"); continue
            a = cs[0][1]
            es = elem_size(p, "std::vector<" + f.cls[len("CEX::SecureAllocator<"):-1] + ",")
            if a[0] != ("arg", 1) or a[1] != ("arg", 2) or a[2][0] != "i" or (es and a[2] != I(es)):
                ctx.report(f"C09:{f.cls}:deallocate", cs[0][0].where, f"{f.cls}::deallocate passes ({', '.join(show(x) for x in a)}) instead of the whole block")
    ctx.count("secure allocator instances", n)
    ctx.floor("secure allocator instances", 2)
    # the block is erased before it is released
    for short, argp, length in (("CEX::Tools::LockingAllocator::Deallocate", 0, mul(("arg", 1), ("arg", 2))), ("CEX::SecureMemory::Free", 0, ("arg", 1))):
        for f in p.by_short.get(short, []):
            er = set(); rel = []
            for i in f.calls:
                ts = p.callees(i) or []
                for t in ts:
                    g = p.funcs.get(t); nm = g.base_nm if g else t
                    a = [ex.val(f, x) for x in i.args]
                    if not any(maybe(ex, f, x, ("arg", argp)) for x in i.args): continue
                    if g is not None and g.cls == "CEX::SecureMemory" and nm == "Erase" and a[0] == ("arg", argp) and a[1] == length: er.add(i.bb)
                    elif nm in ("free", "VirtualFree", "__imp_VirtualFree", "munmap", "VirtualUnlock") or (g is not None and nm in ("deallocate", "Deallocate")): rel.append((i, nm))
                if not ts and isinstance(i.callee, int) and any(maybe(ex, f, x, ("arg", argp)) for x in i.args): rel.append((i, "an imported function"))
            ctx.count("releases of secure blocks", len(rel))
            for i, nm in rel:
                if i.bb not in er and i.bb in f.reach(0, stop=er):
                    ctx.report(f"C09:{short}:{nm}", i.where, f"{short} releases the block through {nm} on a path where its {show(length)} bytes were not erased")
                elif i.bb in er and not any(j.bb == i.bb and j.ix < i.ix and (p.callees(j) or [""])[0].find("Erase") > 0 for j in f.calls):
                    ctx.report(f"C09:{short}:{nm}", i.where, f"{short} releases the block before it is erased")
    # the erase itself: all bytes, volatile
    for f in p.by_short.get("CEX::SecureMemory::Erase", []):
        vol = volatile_zero(p, ex, f, ("arg", 0), ("arg", 1), [("arg", k) for k in range(f.nargs)])
        if not vol: ctx.report("C09:SecureMemory::Erase", f"{f.relfile}:{f.line}", "SecureMemory::Erase does not write zeroes through volatile stores over the whole range on every path")
        ctx.count("erase primitives")
    ctx.floor("erase primitives", 1)


def maybe(ex, f, v, target, seen=()):
    """can the SSA value be (derived from) target?"""
    if root(ex.val(f, v)) == target: return True
    d = f.defs.get(v) if isinstance(v, int) else None
    if d is None or v in seen: return False
    if d.op == "phi": return any(maybe(ex, f, x, target, seen + (v,)) for x, _ in d.raw[4])
    if d.op == "select": return any(maybe(ex, f, x, target, seen + (v,)) for x in d.raw[5:7])
    return False


def volatile_zero(p, ex, f, ptr, ln, args, depth=0):
    """every path of f zeroes ptr[0..ln) in a way the optimizer keeps"""
    for i in f.calls:
        if i.bb != 0 and any(b.op == "ret" for b in [f.blocks[x][-1] for x in f.reach(0, stop={i.bb})]): continue
        for t in p.callees(i) or []:
            g = p.funcs.get(t); a = [ex.val(f, x, None, args) for x in i.args]
            nm = g.base_nm if g else t
            if nm in ("explicit_bzero", "memset_s", "RtlSecureZeroMemory", "SecureZeroMemory") and g is None and a[0] == ptr and a[1] == ln: return True
            if g is not None and depth < 3 and ptr in a and ln in a and volatile_zero(p, ex, g, ptr, ln, a, depth + 1): return True
    # a loop of volatile byte stores bounded by ln
    for i in f.insts:
        if i.op == "store" and i.raw[4] in ("i:0",) and len(i.raw) > 6 and i.raw[6]:
            return loop_over(p, ex, f, i, ptr, ln, args)
        if i.is_call and isinstance(i.callee, str) and i.callee.startswith("g:llvm.memset") and len(i.args) == 4 and i.args[3] in ("i:1", "i:-1", "true"):
            a = [ex.val(f, x, None, args) for x in i.args]
            if a[0] == ptr and a[1] == I(0) and a[2] == ln: return True
    return False


def loop_over(p, ex, f, st, ptr, ln, args):
    """the store sits in a loop that runs once for each of ln bytes"""
    for l in f.loops:
        if st.bb not in l["bl"]: continue
        # a counter phi at the head stepped by one, leaving when it meets ln (or counts ln down to 0)
        for i in f.blocks[l["h"]]:
            if i.op != "phi": break
            ini = [ex.val(f, v, None, args) for v, b in i.raw[4] if b not in l["bl"]]
            stp = [ex.val(f, v, None, args) for v, b in i.raw[4] if b in l["bl"]]
            me = ("v", f.name, i.id)
            if len(ini) != 1 or not stp: continue
            d = add(stp[0], me, -1)
            if d not in (I(1), I(-1)): continue
            start = ini[0]
            for b in l["bl"]:
                t = f.blocks[b][-1]
                if t.op != "br" or t.raw[3] is None or all(s in l["bl"] for s in t.raw[4]): continue
                c = ex.val(f, t.raw[3], None, args)
                if d == I(1) and start == I(0) and mentions(c, lambda e: e == ln) and mentions(c, lambda e: e == me): return True
                if d == I(-1) and start == ln and mentions(c, lambda e: e == me): return True
    return False


def primitives(ctx):
    """MemoryTools::Clear/ClearRaw: vector stores of zero in a counted loop, then memset of the rest"""
    p, ex = ctx.p, ctx.ex
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.cls != "CEX::Tools::MemoryTools" or f.base_nm not in ("Clear", "ClearRaw"): continue
        ctx.count("clear helpers")
        full3 = f.base_nm == "Clear"
        if full3: base = ("el", ("arg", 0), ("arg", 1)); ln = ("arg", 2)
        else: base = ("arg", 0); ln = ("arg", 1)
        tail = 0
        for i in f.calls:
            ts = p.callees(i) or []
            if ts and ts[0].startswith("llvm.memset") or ts and ts[0] == "memset":
                a = [ex.val(f, x) for x in i.args]
                # address base+k, length ln-k, value 0
                k = add(ln, a[2], -1)
                if full3:
                    es = elem_size(p, dict(f.param_types())[0].replace("const ", "")) or 1
                    c, d = ir.lin_of(k)
                    k = I(0) if k == I(0) else ir.mk_lin(c // es, {t: x // es for t, x in d.items()}) if c % es == 0 and all(x % es == 0 for x in d.values()) else ("?",)
                want = ("el", ("arg", 0), add(("arg", 1), k)) if full3 else (("el", base, k) if k != I(0) else base)
                if a[1] != I(0):
                    ctx.report(f"C09:{f.short}:value", i.where, f"{f.short} fills with {show(a[1])} instead of zero")
                elif not same_addr(a[0], want):
                    ctx.report(f"C09:{f.short}:{f.dem}", i.where, f"{f.short} clears {show(a[2])} bytes at {show(a[0])}: not the rest of the requested range")
                else: tail += 1
                # the memset runs unless nothing is left
                for c in Dtor(ctx).guards(f, i.bb, None):
                    if not mentions(c, lambda e: e == ln) and not (c[0] in ("T", "F")):
                        ctx.report(f"C09:{f.short}:guard", i.where, f"{f.short} skips the rest of the range depending on {show(c)}")
        if not tail: ctx.report(f"C09:{f.short}:tail:{f.dem[:60]}", f"{f.relfile}:{f.line}", f"{f.short} does not clear the remainder of the range with zeroes")
    ctx.floor("clear helpers", 3)


def same_addr(a, b):
    if a == b: return True
    if a[0] == "off": a = ("el", a[1], I(a[2]))
    if b[0] == "off": b = ("el", b[1], I(b[2]))
    return a == b
