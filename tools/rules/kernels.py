"""C02 constant-time kernels: no branch, address, divisor or library comparison depends on secret data, and the tag
comparers look at every byte of the range."""
import re
import ir, taint
from ir import I, add, show, root
from frontend import Broken

TOOLS = "CEX::Tools::IntegerTools"


def comparers(p):
    """constant-time range comparers -> argument positions of (A, AOffset, B, BOffset, Length)"""
    r = {}
    for f in p.funcs.values():
        if f.base_nm == "Compare" and f.cls == TOOLS: r[f] = (0, 1, 2, 3, 4)
    return r


# pure kernels: every array they can reach is secret, scalar parameters (offsets, lengths, round counts) are public
PERMUTATIONS = [
    ("CEX::Digest::Blake", None), ("CEX::Digest::Keccak", None), ("CEX::Digest::SHA2", None), ("CEX::Digest::Skein", None),
    ("CEX::Cipher::Stream::ChaCha", None), ("CEX::Cipher::Stream::Threefish", None), ("CEX::Numeric::CMUL", None),
    ("CEX::Digest::GHASH", "Multiply"), ("CEX::Digest::GHASH", "Permute"), ("CEX::Mac::Poly1305", "Absorb"),
    ("CEX::Cipher::Block::Padding::ESP", "GetBlockLength"), ("CEX::Cipher::Block::Padding::PKCS7", "GetBlockLength"),
    ("CEX::Cipher::Block::Padding::X923", "GetBlockLength"), ("CEX::Cipher::Block::Padding::ZeroOne", "GetBlockLength"),
]
# comparison and selection helpers: scalars named as positions are public, everything else is secret
SELECT = {"Compare": (1, 3, 4), "ConditionalCopy": None, "ExpandMask": (), "IsEqual": (), "IsZero": (), "Select": (), "Verify": None}
# asymmetric kernels: (class suffix, function, position of the secret parameter in the source signature)
SECRETS = [
    ("EC25519", "ScalarMultCurve25519", "N"), ("EC25519", "ScalarmultCurve25519Ref10Base", "N"), ("EC25519", "Ge25519ScalarBase", "A"),
    ("EC25519", "Sc25519MulAdd", "A"), ("EC25519", "Sc25519MulAdd", "B"), ("EC25519", "Sc25519MulAdd", "C"), ("EC25519", "Sc25519Reduce", "S"),
    ("EC25519", "Sc25519Verify", None), ("ECDHBase", "Ed25519KeyExchange", "PrivateKey"), ("ECDSABase", "Ed25519Sign", "PrivateKey"),
    ("MPKCN4608T96", "Decapsulate", "PrivateKey"), ("MPKCN6688T128", "Decapsulate", "PrivateKey"), ("MPKCN6960T119", "Decapsulate", "PrivateKey"),
    ("MPKCN8192T128", "Decapsulate", "PrivateKey"), ("KyberBase", "Decapsulate", "PrivateKey"),
]
# the public matrix of Kyber is expanded from a seed that is part of the public key; the decapsulation buffer it is
# copied from also holds secrets, so the flow analysis cannot tell it apart
PUBLIC_BY_DESIGN = {("CEX::Asymmetric::Encrypt::MLWE::KyberBase", "GenMatrix")}


def ispt(t): return t.endswith("&") or t.endswith("*")


def run_C02(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("Flow- and context-sensitive secret taint over the SSA form of each kernel and everything it calls: no conditional branch, switch, "
                "memory address, divisor, memcmp or container comparison may depend on the secret input; the range comparers are single-exit loops over the "
                "whole range that OR-accumulate the XOR of both bytes.")
    ctx.assume = ["instruction-level timing of single machine operations (multiplication, AVX) is data independent", "the compiler keeps select/mask arithmetic branch-free",
                  "the length of a secret is public; Kyber's matrix seed is public (its expansion is exempt)", "data handed to virtual calls (digests, generators) flows through; the callee's own code is analysed where it is a listed kernel"]
    roots = []
    for cls, nm in PERMUTATIONS:
        for f in sorted(p.methods(cls), key=lambda f: f.name):
            if nm is not None and f.base_nm != nm: continue
            mem = {("arg", k) for k, t in f.param_types() if ispt(t)}
            if nm is None and not (mem and f.base_nm.startswith("Pe")): continue
            roots.append((f, set(), mem, "every array", "permutation kernels"))
    for f in sorted(p.methods(TOOLS), key=lambda f: f.name):
        if f.base_nm not in SELECT: continue
        pub = SELECT[f.base_nm]
        if pub is None: pub = tuple(k for k, t in f.param_types() if t in ("unsigned long long", "const unsigned long long"))
        vals = {k for k, t in f.param_types() if not ispt(t) and k not in pub}
        mem = {("arg", k) for k, t in f.param_types() if ispt(t)}
        roots.append((f, vals, mem, "every operand", "selection and comparison helpers"))
    for cls, nm, prm in SECRETS:
        for f in sorted([f for f in p.funcs.values() if f.cls.rsplit("::", 1)[-1] == cls and f.base_nm == nm], key=lambda f: f.name):
            pn = f.d.get("pn", {})
            vals, mem = set(), set()
            for k, (ix, ty) in enumerate(f.param_types()):
                if prm is not None and pn.get(str(k + 1)) != prm: continue
                if ispt(ty): mem.add(("arg", ix))
                elif prm is not None: vals.add(ix)
            if mem or vals: roots.append((f, vals, mem, prm or "every array", "asymmetric kernels"))
    dec = {f.name for f in p.funcs.values() if (f.cls, f.base_nm) in PUBLIC_BY_DESIGN}
    T = taint.Taint(p, ex, declassify=dec)
    for f, vals, mem, what, kind in roots:
        ctx.count(kind)
        T.leaks = {}
        n0 = len(T.fns)
        T.run(f, vals, mem)
        for (fn, ln, why), (lf, i, w) in sorted(T.leaks.items()):
            ctx.report(f"C02:{short(lf)}:{why}", i.where, f"{short(lf)}: {why} depends on secret data ({what} of {short(f)})")
        if len(ctx.samples) < 24 and not f.dem.startswith("std"): ctx.sample(f"{short(f)} ({what}): {len(T.fns) - n0} further functions")
    ctx.count("functions analysed", len(T.fns))
    ctx.count("specializations", len(T.memo))
    ctx.notes.append({"virtual or external calls secrets flow through": sorted({b for _, b in T.boundary})[:40]})
    shapes(ctx)
    mac_compares(ctx)
    ctx.floor("permutation kernels", 25); ctx.floor("selection and comparison helpers", 6); ctx.floor("asymmetric kernels", 10); ctx.floor("range comparers", 3)


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


def shapes(ctx):
    """Compare, Verify: every byte of [0, Length) contributes to the verdict"""
    p, ex = ctx.p, ctx.ex
    for f in sorted(p.methods(TOOLS), key=lambda f: f.name):
        if f.base_nm not in ("Compare", "Verify", "VerifyRaw"): continue
        ctx.count("range comparers")
        pts = f.param_types()
        arr = [k for k, t in pts if ispt(t)]
        sc = [k for k, t in pts if not ispt(t)]
        ln = sc[-1]
        offs = {arr[0]: sc[0], arr[1]: sc[1]} if len(sc) == 3 else {a: None for a in arr}
        ok, why = comparer_loop(p, ex, f, arr[:2], offs, ln)
        if not ok: ctx.report(f"C02:{short(f)}:range", f"{f.relfile}:{f.line}", f"{short(f)}: {why}")


def comparer_loop(p, ex, f, arr, offs, ln):
    loops = f.loops
    if len(loops) != 1: return False, f"expected a single loop over the range, found {len(loops)}"
    L = loops[0]
    if len(L["ex"]) != 1: return False, "the loop has more than one exit (early return)"
    if L["bt"] != f"%v{ln}_": return False, f"the loop does not run exactly Length times (count {L['bt']})"
    bl = set(L["bl"]); iv = {k: s for k, s in L["iv"]}
    bad = None
    for i in f.blocks[L["h"]]:
        if i.op != "phi": continue
        for v, pb in i.raw[4]:
            if pb not in bl: continue
            # the value carried round: accumulator | (A[x] ^ B[y])
            for xr in ors(ex.val(f, v), ("v", f.name, i.id)):
                if xr[0] != "xor" or len(xr) != 3: continue
                ends = {}
                for e in xr[1:]:
                    if e[0] == "ld" and e[1][0] == "el" and e[1][1][0] == "arg": ends[e[1][1][1]] = e[1][2]
                if set(ends) != set(arr): continue
                wrong = [x for k, x in ends.items() if not index_ok(x, offs[k], iv, ln)]
                if wrong: bad = f"the bytes compared are not [offset, offset + Length) ({show(wrong[0])})"
                elif not reaches_ret(f, i): bad = "the accumulated difference does not decide the result"
                else: return True, ""
    return False, bad or "the difference of the two bytes is not OR-ed into the verdict on every iteration"


def ors(e, acc):
    """the operands OR-ed with the accumulator"""
    if e[0] == "cast" or e[0] == "and" and any(x[0] == "i" and x[1] in (255, 65535, 4294967295) for x in e[1:]):
        return ors(next(x for x in e[1:] if isinstance(x, tuple) and x[0] != "i"), acc)
    if e[0] != "or": return []
    flat = []
    def fl(x):
        if x[0] == "or":
            for y in x[1:]: fl(y)
        else: flat.append(x)
    fl(e)
    return [x for x in flat if x != acc] if acc in flat else []


def index_ok(idx, off, iv, ln):
    """idx = off + i where i runs over 0 .. Length-1, upwards or downwards"""
    if idx[0] == "lin":
        c, terms = idx[1], dict(idx[2])
    else: c, terms = 0, {idx: 1}
    if off is not None and terms.pop(("arg", off), None) != 1:
        t = next(iter(terms))
        return c == 0 and t[0] == "v" and iv.get(t[2], "").startswith(f"{{%v{off}_,+,1}}")
    if len(terms) != 1: return False
    (t, k), = terms.items()
    if k != 1 or t[0] != "v": return False
    s = iv.get(t[2], "")
    if c == 0: return s.startswith("{0,+,1}") or s.startswith(f"{{(-1 + %v{ln}_)") and ",+,-1}" in s
    return c == -1 and (s.startswith("{1,+,1}") or s.startswith(f"{{%v{ln}_,+,-1}}"))


def reaches_ret(f, d):
    seen = {d.id}; st = [d.id]
    while st:
        v = st.pop()
        for u in f.uses.get(v, ()):
            if u.op == "ret": return True
            if u.id >= 0 and u.id not in seen and u.op not in ("load",): seen.add(u.id); st.append(u.id)
            if u.op == "br":  # result chosen by a branch on the accumulator
                return True
    return False


def mac_compares(ctx):
    """a tag computed by a MAC is never compared by a variable-time comparison in the function that computed it"""
    p, ex = ctx.p, ctx.ex
    from rules.aead import MacOps
    ops = MacOps(p)
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.in_cex or f.cls.startswith("std::"): continue
        mem = set(); T = None
        for c in f.calls:
            ts = p.callees(c)
            if ts and ops.kind(c, ts) in ("Finalize", "Compute"):
                n = 1 if ops.kind(c, ts) == "Finalize" else 2
                if n >= len(c.args): continue
                if T is None: T = taint.Taint(p, ex)
                mem.update(T.keys(f, c.args[n]))
        if not mem: continue
        ctx.count("functions that compute a MAC tag")
        T.run(f, set(), mem)
        for (fn, l, why), (lf, i, w) in sorted(T.leaks.items()):
            if why.startswith("variable-time"):
                ctx.report(f"C02:{short(lf)}:{why}", i.where, f"{short(lf)}: {why} of a tag computed in {short(f)}")
