"""C01 verify-before-release and C03 authenticated coverage of the AEAD transforms.

Every override of Transform (IAeadMode, IStreamCipher) is explored path by path for each combination of the class's
own direction and authentication flags; helpers that reach a MAC call or a tag comparison are explored in context.
The order of events (output written, MAC updated, MAC finalized, tag compared, tag written) decides the two rules."""
import ir
from ir import I, add, show, root, mentions, Explorer
from frontend import Broken
from rules import kernels

AEAD_BASES = ("CEX::Cipher::Block::Mode::IAeadMode", "CEX::Cipher::Stream::IStreamCipher")
MAC_BASE = "CEX::Mac::IMac"
GHASH = "CEX::Digest::GHASH"


def is_mac_cls(p, c): return c == GHASH or p.is_sub(c, MAC_BASE)


class MacOps:
    """which call instructions are authenticator operations"""

    def __init__(self, p):
        self.p = p; self.memo = {}
        self.cmp = {f.name: a for f, a in kernels.comparers(p).items()}
        self.touch = {}

    def kind(self, i, ts):
        if not ts: return None
        k = tuple(ts)
        if k not in self.memo:
            r = None
            fs = [self.p.funcs.get(t) for t in ts]
            if all(f is not None and is_mac_cls(self.p, f.cls) for f in fs):
                ns = {f.base_nm for f in fs}
                if len(ns) == 1:
                    n = ns.pop()
                    if n in ("Update", "Multiply", "Finalize", "Compute", "Clear", "Reset", "Initialize", "TagSize"): r = n
            self.memo[k] = r
        return self.memo[k]

    def touches(self, fn, seen=None):
        """the function reaches a MAC operation, a tag comparison or an authentication throw through direct calls"""
        if fn.name in self.touch: return self.touch[fn.name]
        self.touch[fn.name] = False
        r = False
        for i in fn.calls:
            if i.callee == "g:__cxa_throw" and isinstance(i.args[1], str) and "AuthenticationFailure" in i.args[1]: r = True; break
            ts = self.p.callees(i)
            if not ts: continue
            if self.kind(i, ts) in ("Update", "Multiply", "Finalize", "Compute"): r = True; break
            if any(t in self.cmp for t in ts): r = True; break
            if len(ts) == 1 and isinstance(i.callee, str):
                g = self.p.funcs.get(ts[0])
                if g is not None and g.in_cex and not is_mac_cls(self.p, g.cls) and self.touches(g): r = True; break
        self.touch[fn.name] = r
        return r


def evs(st):
    for k, b in st:
        if k == "ev": return b
    return ()


def ev_add(st, e):
    old = evs(st)
    if len(old) >= 2 and old[-1] == e and old[-2] == e: return st
    return (st - {("ev", old)}) | {("ev", old + (e,))}


class AeadX(Explorer):
    def __init__(self, p, ex, ops, cls, out, flags, file):
        super().__init__(p, ex)
        self.ops = ops; self.cls = cls; self.out = out; self.flags = flags; self.file = file

    def relevant(self, e):
        return self.flags.get(e)

    def inline(self, fn, i, args, st):
        return self.near(fn) and self.ops.touches(fn)

    def near(self, fn):
        """helpers of the class itself, and free functions or closures of its file"""
        if fn.cls == self.cls or fn.cls.startswith(self.cls + "::"): return True
        return fn.file == self.file and not (fn.cls and fn.cls in self.p.types and self.p.types[fn.cls].get("fn"))

    def local_content(self, st, e):
        r = root(e) if root(e)[0] == "loc" else e
        if r[0] in ("loc", "fld"):
            for k, b in st:
                if k == ("lc", r): return ("content", b)
        return e

    def on_call(self, i, ts, args, st, f):
        k = self.ops.kind(i, ts)
        if k in ("Update", "Multiply", "Finalize", "Compute", "Clear", "Reset"):
            a = tuple(self.local_content(st, x) if n == 0 and k in ("Update", "Multiply") else x for n, x in enumerate(args[1:]))
            return [(ev_add(st, (k, a, i.where)), None)]
        if ts and len(ts) == 1 and ts[0] in self.ops.cmp:
            n = self.ops.cmp[ts[0]]
            a = tuple(args[j] for j in n)
            return [(ev_add(st, ("CMP1", a, i.where)), ("T",)), (ev_add(st, ("CMP0", a, i.where)), ("F",))]
        if i.callee and isinstance(i.callee, str) and i.callee.startswith("g:llvm."): return None
        fn = self.p.funcs.get(ts[0]) if ts else None
        if fn is not None and self.inline(fn, i, args, st) and len(ts) == 1: return None
        st2 = st
        nm = fn.base_nm if fn is not None else ""
        # the caller's output array handed to code that may write it
        for n, a in enumerate(args):
            r = root(a)
            if not self.writable(fn, ts, n, a): continue
            if r == self.out:
                tail = ()
                if nm == "Copy" and len(args) == 5: tail = tuple(args)
                elif nm in ("Transform", "Process") or True: tail = ("call", nm) + tuple(args[n:n + 3])
                st2 = ev_add(st2, ("OUT", tail, i.where)); continue
            if r[0] != "loc" and a[0] == "fld": r = a
            if r[0] in ("loc", "fld") and ts:
                others = tuple(self.local_content(st, x) for m, x in enumerate(args) if m != n)
                st2 = frozenset(x for x in st2 if x[0] != ("lc", r)) | {(("lc", r), ("f", nm or str(ts[0]), others))}
            if nm.startswith("XOR"):
                st2 = ev_add(st2, ("MIX", (a, tuple(args)), i.where))
            elif nm == "Copy" and len(args) == 5:
                st2 = ev_add(st2, ("COPY", tuple(args), i.where))
            elif fn is not None and a[0] != "arg" and (fn.in_cex or nm in ("resize", "operator=", "clear", "assign", "swap")):
                st2 = ev_add(st2, ("MOD", (a,), i.where))
        if st2 != st: return [(st2, None)]
        return None

    def writable(self, fn, ts, n, a):
        """argument n of this call may be written by the callee"""
        if a[0] in ("i", "k", "lin", "cmp", "T", "F"): return False
        if fn is None:
            if ts and ts[0].startswith("llvm.mem"): return n == 0
            return False
        if fn.sret and n == 0: return True
        pts = dict(fn.param_types())
        t = pts.get(n, "")
        if n == (1 if fn.sret else 0) and fn.cls and t.endswith("*") and ("operator[]" in fn.nm or fn.base_nm in ir.PURE_STD or fn.base_nm == "at"):
            return False
        if t.endswith("&") or t.endswith("*"):
            return not t.startswith("const ")
        return False

    def on_store(self, i, addr, val, st, f):
        r = root(addr)
        if r == self.out and addr != self.out and addr[0] in ("el", "off", "ld"):
            return ev_add(st, ("OUT", ("store", addr), i.where))
        if addr[0] == "fld" and (val == add(("ld", addr), ("arg", 5)) or val == I(0)):
            return ev_add(st, ("CTR", (addr, val), i.where))
        # the address of the output array kept in a closure handed on to other code
        if val == self.out and root(addr)[0] == "loc" and addr[0] == "fld":
            return ev_add(st, ("OUT", ("capture",), i.where))
        return st

    def on_throw(self, i, ti, st, f):
        return ev_add(st, ("THROW", (ti or "?",), i.where))


def sub_out(e, m):
    """rename the caller's output array and offset to its input array and offset"""
    if not isinstance(e, tuple): return e
    if e in m: return m[e]
    if e and e[0] == "lin":
        acc = I(e[1])
        for t, k in e[2]: acc = add(acc, ir.mul(I(k), sub_out(t, m)))
        return acc
    return tuple(sub_out(x, m) for x in e)


def transforms(p):
    """(function, is-aead) for every concrete override of Transform in an AEAD mode or a stream cipher"""
    out = []
    for b in AEAD_BASES:
        for c in sorted(p.subs.get(b, ())):
            for f in p.methods(c, "Transform"):
                if f.virt and len(f.sty) == 7: out.append((f, b))
    return out


def flags_of(p, ex, cls):
    """conditions that test the class's own direction, authentication and initialization state"""
    m = {}
    for nm, key in (("IsEncryption", "enc"), ("IsAuthenticator", "auth"), ("IsInitialized", "init")):
        for f in p.methods(cls, nm):
            e = ex.retexpr(f)
            if e is not None:
                m[e] = key
                if e[0] == "cmp": pass
            m[("c", f.name, (("arg", 0),), "bool")] = key
        m[("m", nm, (("arg", 0),), "bool")] = key
    return m


def paths(ctx, f, base, enc, auth):
    p = ctx.p
    flags = flags_of(p, ctx.ex, f.cls)
    st = {("enc", enc), ("init", True), ("ev", ())}
    if "IStreamCipher" in base: st.add(("auth", auth))
    x = AeadX(p, ctx.ex, ctx.macops, f.cls, ("arg", 3), flags, f.file)
    r = x.explore(f, [("arg", k) for k in range(f.nargs)], frozenset(st))
    ctx.count("blocks explored", x.n)
    return r


def tagsizes(ctx, cls):
    s = set()
    for f in ctx.p.methods(cls, "TagSize"):
        e = ctx.ex.retexpr(f)
        if e is not None: s.add(e)
    return s


def is_taglen(e, bufs, ts):
    if e in ts: return True
    if e[0] == "size" and e[1] in bufs: return True
    if e[0] == "m" and e[1] == "TagSize": return True
    if e[0] == "c" and "TagSize" in e[1]: return True
    return False


class Walk:
    """replays a path's events: which buffers hold the finalized tag, what was authenticated"""

    def __init__(self, ev, ts):
        self.bufs = set(); self.ever = set(); self.upd = []; self.fin = []; self.pos = {}
        self.ts = ts; self.tagout = None; self.cmp = None; self.ciph = []; self.ctr = []; self.mix = []
        self.throws = []; self.order = []

    def step(self, k, a, n):
        if k in ("Finalize", "Compute"):
            if k == "Compute": self.upd.append((n, (a[0],)))
            self.fin.append((n, a)); dst = a[0] if k == "Finalize" else a[1]
            self.bufs.add(dst); self.ever.add(dst)
        elif k in ("Update", "Multiply"): self.upd.append((n, a))
        elif k in ("COPY",):
            src, so, dst, do, ln = a
            if src in self.bufs and (is_taglen(ln, self.ever | {dst}, self.ts) ) and so == I(0):
                self.bufs.add(dst); self.ever.add(dst)
            elif dst in self.bufs: self.bufs.discard(dst)
        elif k == "MIX": self.mix.append((n, a))
        elif k == "MOD": self.bufs.discard(a[0])
        elif k == "CTR": self.ctr.append((n, a))
        elif k == "THROW": self.throws.append((n, a))


def run_C01(ctx):
    p = ctx.p
    ctx.macops = MacOps(p)
    ctx.rule = ("On every path of an authenticated decrypting Transform the caller's output array is written only after a full-length "
                "constant-time comparison of the freshly finalized tag with the tag at InOffset+Length was true; a false comparison "
                "throws CryptoAuthenticationFailure; no path returns normally without a true comparison.")
    ctx.assume = ["const references are not written through (no const_cast of the output array)",
                  "the Exprs normal form identifies equal addresses only when they are syntactically the same object path"]
    for f, base in transforms(p):
        inp, io, out, oo, ln = (("arg", k) for k in (1, 2, 3, 4, 5))
        ts = tagsizes(ctx, f.cls)
        ctx.count("transforms")
        rs = paths(ctx, f, base, False, True)
        n_ret = n_fail = 0
        for kind, st, rv in rs:
            ev = evs(st)
            w = Walk(ev, ts); ok = False; failed = None
            ctx.count("paths")
            for n, (k, a, wh) in enumerate(ev):
                w.step(k, a, n)
                if k in ("CMP1", "CMP0"):
                    A, ao, B, bo, L = a
                    if A == inp: ia, ta = (A, ao), (B, bo)
                    else: ia, ta = (B, bo), (A, ao)
                    good = True
                    if ia[0] != inp or ia[1] != add(io, ln):
                        good = False; why = f"the comparison does not read the received tag at InOffset + Length ({show(a)})"
                    elif ta[0] not in w.bufs or ta[1] != I(0):
                        good = False; why = f"the comparison is not against the freshly finalized tag ({show(ta[0])})"
                    elif not is_taglen(L, w.ever, ts):
                        good = False; why = f"the comparison covers {show(L)} bytes, not the whole tag"
                    elif not any(x[1][0] == inp and x[1][1] == io and x[1][2] == ln for x in w.upd if len(x[1]) >= 3 and w.fin and x[0] < w.fin[-1][0]):
                        # GHASH::Update(Input, InOffset, Tag, Length)
                        if not any(len(x[1]) >= 4 and x[1][0] == inp and x[1][1] == io and x[1][3] == ln and w.fin and x[0] < w.fin[-1][0] for x in w.upd):
                            good = False; why = "the compared tag was not computed over the received cipher-text"
                    if not good:
                        ctx.report(f"C01:{f.short}:compare", wh, f"{f.short}: {why}")
                    if k == "CMP1": ok = good or ok
                    else: failed = wh
                    ctx.count("comparisons on paths")
                elif k == "OUT":
                    if not ok or failed:
                        ctx.report(f"C01:{f.short}:release", wh, f"{f.short}: the output array is written before (or without) a successful tag comparison on an authenticated decrypt path ({a[0]} {a[1] if len(a) > 1 and isinstance(a[1], str) else ''})")
                    ctx.count("output writes on paths")
            if kind == "ret":
                n_ret += 1
                if failed:
                    ctx.report(f"C01:{f.short}:swallow", failed, f"{f.short} returns normally after the tag comparison failed")
                elif not ok:
                    ctx.report(f"C01:{f.short}:noverify", f.relfile + f":{f.line}", f"{f.short} returns normally on an authenticated decrypt path without a tag comparison")
            elif failed:
                n_fail += 1
                th = [a[0] for k, a, wh in ev if k == "THROW"]
                if th and "CryptoAuthenticationFailure" not in th[-1]:
                    ctx.report(f"C01:{f.short}:wrongthrow", failed, f"{f.short}: a failed tag comparison throws {th[-1]}, not CryptoAuthenticationFailure")
        if n_ret == 0: raise Broken(f"no successful decrypt path found in {f.short}")
        if n_fail == 0 and not ctx.reports: raise Broken(f"no failing decrypt path found in {f.short}")
        ctx.sample(f"{f.short} ({f.relfile}:{f.line}): {n_ret} releasing paths, {n_fail} rejecting paths")
    ctx.floor("transforms", 8)


def anon(e):
    """forget which local object an expression speaks about"""
    if not isinstance(e, tuple): return e
    if e and e[0] in ("loc", "v", "new"): return ("local",)
    return tuple(anon(x) for x in e)


def upd_args(a):
    """(data, offset, length) of IMac::Update(Input, InOffset, Length), GHASH::Update(Input, InOffset, State, Length), GHASH::Multiply(Input, State, Length)"""
    if len(a) == 4: return a[0], a[1], a[3]
    if len(a) == 3 and a[1][0] not in ("fld", "loc"): return a
    if len(a) == 3: return a[0], I(0), a[2]
    return a[0], None, None


def run_C03(ctx):
    p = ctx.p
    ctx.macops = MacOps(p)
    ctx.rule = ("On every returning path of an authenticated Transform the MAC absorbs the nonce, exactly the cipher-text [offset, offset+Length) "
                "(the output array after it was written when encrypting, the input array when decrypting) and a terminator over the running byte counter "
                "that was advanced by Length first; both directions absorb the same sequence; encryption then writes the whole tag at OutOffset+Length; "
                "SetAssociatedData absorbs exactly the caller's range.")
    ctx.assume = ["the cipher engine's own Transform/Process writes the whole Length bytes it is given (not decided here)"]
    inp, io, out, oo, ln = (("arg", k) for k in (1, 2, 3, 4, 5))
    for f, base in transforms(p):
        ctx.count("transforms")
        ts = tagsizes(ctx, f.cls)
        seqs = {}
        for enc in (True, False):
            seqs[enc] = {}
            data, off = (out, oo) if enc else (inp, io)
            for kind, st, rv in paths(ctx, f, base, enc, True):
                if kind != "ret": continue
                ctx.count("paths")
                ev = evs(st); w = Walk(ev, ts)
                lastciph = None; tagout = None; fin = None; seq = []
                for n, (k, a, wh) in enumerate(ev):
                    if k == "OUT":
                        if len(a) == 5 and isinstance(a[0], tuple) and a[0] in w.bufs: tagout = (n, a, wh)
                        else: lastciph = (n, wh)
                    if k in ("Finalize", "Compute") and fin is None:
                        fin = (n, a, wh)
                        if a[0] == out: tagout = (n, (None, None, a[0], a[1] if len(a) > 1 else None, None), wh)
                    if fin is None and k in ("Update", "Multiply"):
                        seq.append(anon((k,) + a))
                    w.step(k, a, n)
                d = "encrypt" if enc else "decrypt"
                wh0 = f"{f.relfile}:{f.line}"
                if fin is None:
                    ctx.report(f"C03:{f.short}:{d}:nofinal", wh0, f"{f.short}: a {d} path returns without finalizing the MAC"); continue
                ups = [(n, upd_args(a)) for n, a in w.upd if n < fin[0]]
                full = [n for n, (x, o, l) in ups if x == data and o == off and l == ln]
                ctx.count("mac updates", len(ups))
                if not full:
                    ctx.report(f"C03:{f.short}:{d}:ciphertext", fin[2], f"{f.short}: the {d} path does not authenticate the cipher-text [offset, offset + Length); updates: " + "; ".join(show(a) for _, a in ups))
                else:
                    extra = [a for n, a in ups if root(a[0]) in (inp, out) and n not in full]
                    if len(full) > 1 or extra:
                        ctx.report(f"C03:{f.short}:{d}:extra", fin[2], f"{f.short}: the {d} path authenticates more than the cipher-text: " + "; ".join(show(a) for a in extra))
                    if enc and lastciph and full[0] < lastciph[0]:
                        ctx.report(f"C03:{f.short}:encrypt:order", lastciph[1], f"{f.short}: the output array is written after the MAC read it")
                    if enc and not lastciph:
                        ctx.report(f"C03:{f.short}:encrypt:nocipher", fin[2], f"{f.short}: no cipher-text is written before the MAC reads the output array")
                nonce = [a for n, a in ups if mentions(a[0], has_nonce)] + [a for n, a in w.mix if mentions(a, has_nonce)]
                if not nonce:
                    ctx.report(f"C03:{f.short}:{d}:nonce", fin[2], f"{f.short}: the {d} path does not authenticate the nonce")
                # the terminator: the counter field advanced by Length on this path
                inc = {}
                for n, (addr, val) in w.ctr:
                    if n < fin[0]:
                        if val != I(0): inc[addr] = n
                        else: inc.pop(addr, None)
                okterm = any(mentions(fin[1], lambda e, q=a_: e == ("ld", q)) for a_ in inc) or \
                    any(n > inc[a_] and mentions(x, lambda e, q=a_: e == ("ld", q)) for n, (x, o, l) in ups for a_ in inc)
                if not okterm:
                    ctx.report(f"C03:{f.short}:{d}:counter", fin[2], f"{f.short}: on the {d} path the finalized tag does not depend on a byte counter that was advanced by Length")
                if enc:
                    if tagout is None or tagout[0] < fin[0]:
                        ctx.report(f"C03:{f.short}:encrypt:tag", fin[2], f"{f.short}: an encrypt path returns without appending the finalized tag to the output array")
                    else:
                        a = tagout[1]
                        if a[3] != add(oo, ln) or (a[4] is not None and (a[1] != I(0) or not is_taglen(a[4], w.ever, ts))):
                            ctx.report(f"C03:{f.short}:encrypt:tagpos", tagout[2], f"{f.short}: the tag is not copied whole to OutOffset + Length ({show(tuple(x for x in a if x))})")
                    if lastciph and lastciph[0] > fin[0]:
                        ctx.report(f"C03:{f.short}:encrypt:late", lastciph[1], f"{f.short}: the output array is written after the MAC was finalized")
                m = {out: inp, oo: io} if enc else {}
                seqs[enc].setdefault(tuple(sub_out(s, m) for s in seq), wh0)
        if seqs[True] and seqs[False] and set(seqs[True]) != set(seqs[False]):
            d1 = next(iter(set(seqs[True]) ^ set(seqs[False])))
            ctx.report(f"C03:{f.short}:asymmetric", f"{f.relfile}:{f.line}", f"{f.short}: encryption and decryption do not authenticate the same sequence; only one direction absorbs: " + " | ".join(show(x[1:]) for x in d1))
        ctx.sample(f"{f.short}: " + " || ".join(" | ".join(show(x[1:]) for x in s) for s in list(seqs[True])[:1]))
    # associated data
    for b in AEAD_BASES:
        for c in sorted(p.subs.get(b, ())):
            for f in p.methods(c, "SetAssociatedData"):
                if not f.virt or "vector<" not in f.sty[2]: continue
                ctx.count("associated data entry points")
                flags = flags_of(p, ctx.ex, c)
                x = AeadX(p, ctx.ex, ctx.macops, c, None, {**flags, ("cmp", "eq", ("arg", 3), I(0)): "len0"}, f.file)
                x.ad = True
                rs = x.explore(f, [("arg", k) for k in range(f.nargs)], frozenset({("init", True), ("auth", True), ("len0", False), ("ev", ())}))
                nret = 0
                for kind, st, rv in rs:
                    if kind != "ret": continue
                    nret += 1; ctx.count("paths")
                    src = {("arg", 1): (("arg", 2), ("arg", 3))}
                    ok = False
                    for k, a, wh in evs(st):
                        if k == "COPY" and a[0] == ("arg", 1) and a[1] == ("arg", 2) and a[3] == I(0) and a[4] == ("arg", 3): src[a[2]] = (I(0), ("arg", 3))
                        if k == "MOD" and len(a) > 1 and a[1] == ("arg", 1): src[a[0]] = (("arg", 2), ("arg", 3))
                        if k in ("Update", "Multiply"):
                            d, o, l = upd_args(a)
                            d = unwrap(d)
                            if d in src and (o, l) == src[d]: ok = True
                            elif d[0] == "content" and copied(d, ("arg", 1), ("arg", 2), ("arg", 3)) and l == ("arg", 3): ok = True
                    if not ok:
                        ctx.report(f"C03:{f.short}:ad", f"{f.relfile}:{f.line}", f"{f.short} ({f.sty[2]}) returns without absorbing the caller's [Offset, Offset + Length)")
                if nret == 0: raise Broken(f"no returning path in {f.short}")
    ctx.floor("transforms", 8); ctx.floor("associated data entry points", 8)


def unwrap(d):
    """content of whole-vector copies (copy construction, SecureLock, SecureUnlock)"""
    while d[0] == "content" and isinstance(d[1], tuple) and d[1][0] == "f" and d[1][1] in ("SecureUnlock", "SecureLock", "vector", "operator=") and len(d[1][2]) == 1:
        d = d[1][2][0]
    return d


def has_nonce(e):
    return (e[0] == "fld" and "nonce" in str(e[2]).lower()) or (e[0] in ("m", "c") and "Nonce" in str(e[1]))


def copied(d, src, off, ln):
    c = d[1]
    return isinstance(c, tuple) and c[0] == "f" and c[1] == "Copy" and src in c[2] and off in c[2] and ln in c[2]
