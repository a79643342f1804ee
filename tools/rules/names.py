"""C12 names and factories, C13 agreement of enumerations that are converted into each other."""
import ir
from ir import I, add, show, root, mentions, Explorer
from frontend import Broken

STR = "std::__cxx11::basic_string"


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


class StrX(Explorer):
    """exploration with the content of std::string objects; facts ("S", address, literal)"""
    def __init__(self, p, ex):
        super().__init__(p, ex)
        self.name_arg = None; self.tests = set()

    def lit(self, e):
        while e[0] in ("el", "off") and e[2] in (I(0), 0): e = e[1]
        if e[0] == "g":
            g = self.p.globals.get(e[1])
            if g and g.get("c") and isinstance(g.get("init"), str) and g["init"].startswith("s:"): return g["init"][2:].rstrip("\0")
            if g and g.get("c") and g.get("init") in ("zero", "zeroinitializer", None) and str(g.get("ty", "")).startswith("[1 x"): return ""
        return None

    def get(self, st, a):
        for x in st:
            if x[0] == "S" and x[1] == a: return x[2]
        return None

    def put(self, st, a, v):
        st = frozenset(x for x in st if not (x[0] == "S" and x[1] == a))
        return st if v is None else st | {("S", a, v)}

    def relevant(self, e): return e if e[0] == "NAMEIS" else None

    def on_call(self, i, ts, args, st, f):
        p = self.p
        if not ts or len(ts) != 1: return None
        n = ts[0]; g = p.funcs.get(n)
        d = p.dem(n)
        if "basic_string" in d.split("(")[0] or "basic_string" in n:
            b = (g.base_nm if g else d.split("(")[0].split("::")[-1])
            if b == "basic_string" or b.startswith("basic_string<"):
                src = self.lit(args[1]) if len(args) > 1 else ""
                if src is None and len(args) > 1: src = self.get(st, args[1])
                return [(self.put(st, args[0], src), None)]
            if b in ("operator=", "assign"):
                src = self.lit(args[1]); src = self.get(st, args[1]) if src is None else src
                return [(self.put(st, args[0], src), args[0])]
            if b in ("operator+=", "append"):
                src = self.lit(args[1]); src = self.get(st, args[1]) if src is None else src
                a = self.get(st, args[0])
                return [(self.put(st, args[0], a + src if a is not None and src is not None else None), args[0])]
            if b.startswith("operator+") and len(args) == 3:
                x = [self.lit(a) if self.lit(a) is not None else self.get(st, a) for a in args[1:3]]
                return [(self.put(st, args[0], x[0] + x[1] if None not in x else None), None)]
            if b.startswith(("operator==", "operator!=", "compare")) and len(args) == 2:
                lits = [self.lit(a) if self.lit(a) is not None else self.get(st, a) for a in args]
                tgt = [a for a, l in zip(args, lits) if l is None]
                eq = b.startswith("operator==")
                T, F = (("T",), ("F",)) if eq else (("F",), ("T",))
                if b == "compare": T, F = I(0), I(1)
                if not tgt: return [(st, T if lits[0] == lits[1] else F)]
                if len(tgt) == 1:
                    l = [x for x in lits if x is not None][0]
                    key = ("NAMEIS", tgt[0], l)
                    out = []
                    pos = [k[2] for k, v in [x for x in st if isinstance(x[0], tuple)] if k[0] == "NAMEIS" and k[1] == tgt[0] and v]
                    if pos: return [(st, T if pos[0] == l else F)]
                    if (key, False) in st: return [(st, F)]
                    return [(st | {(key, True)}, T), (st | {(key, False)}, F)]
            if b.startswith("~basic_string"): return [(self.put(st, args[0], None), None)]
        return None


def results(ctx, f, args):
    """[(kind, literal or value)] of a converter for constant arguments"""
    x = StrX(ctx.p, ctx.ex); x.tests = set()
    x.inline = lambda fn, i, a, st: fn.in_cex and len(fn.blocks) < 400 and not fn.cls.startswith("std::") and fn.base_nm not in ("CryptoException",)
    out = []
    a = [("arg", k) for k in range(f.nargs)]
    for k, v in args.items(): a[k] = v
    for kind, st, rv in x.explore(f, a, frozenset()):
        s = None
        if f.sret: s = x.get(st, ("arg", 0))
        names = frozenset(k[2] for k, v in [y for y in st if isinstance(y[0], tuple)] if v)
        out.append((kind, s if f.sret else rv, names))
    return out


def method(p, c, n):
    while c:
        m = [f for f in p.methods(c) if f.base_nm == n]
        if m: return m[0]
        b = p.bases(c); c = b[0] if b else None
    return None


class MemX(StrX):
    """exploration that also keeps the constants and objects stored in memory; facts ("M", address, value)"""
    KEEP = ("i", "T", "F", "new", "arg", "g")

    TABLES = ("CEX::Enumeration::", "CEX::Helper::")

    def inline(self, fn, i, args, st):
        if not fn.in_cex or fn.cls.startswith("std::") or len(fn.blocks) > 400 or fn.cls.startswith("CEX::Exception"): return False
        if fn.cls.startswith(self.TABLES): return True
        cs = [x[2] for x in st if x[0] == "CLS" and (x[3] or self.p.funcs[x[1][1]].cls.startswith("CEX::Helper"))]
        own = any(fn.cls == c or fn.cls.startswith(c + "::") or self.p.is_sub(c, fn.cls) for c in cs if c)
        return own and (fn.rt != "void" or fn.base_nm == fn.cls.split("::")[-1].split("<")[0])

    def mget(self, st, a):
        for x in st:
            if x[0] == "M" and x[1] == a: return x[2]
        return None

    def res(self, e, st, d=0):
        if not isinstance(e, tuple) or not e or d > 30: return e
        if e[0] in ("i", "g", "k", "loc", "new", "arg", "v", "T", "F"): return e
        if e[0] in ("ld", "up"):
            a = self.res(e[1], st, d + 1)
            v = self.mget(st, a if e[0] == "ld" else ("up", a))
            return v if v is not None else (e[0], a)
        if e[0] in ("c",) and e[1] in self.p.funcs:
            av = [self.res(x, st, d + 1) for x in e[2]]
            fn = self.p.funcs[e[1]]
            if all(x[0] in ("i", "T", "F", "new") for x in av) and fn.in_cex and not fn.sret:
                rs = {rv for kind, s, rv in self.explore(fn, av, st) if kind == "ret"} if fn.name not in self.stack else set()
                if len(rs) == 1: return self.res(next(iter(rs)), st, d + 1)
            return ("c", e[1], tuple(av), e[3])
        if e[0] == "m" and e[2]:
            o = self.res(e[2][0], st, d + 1); c = [x[2] for x in st if x[0] == "CLS" and x[1] == o]
            m = method(self.p, c[0], e[1]) if c else None
            if m is not None and not m.sret and m.name not in self.stack:
                rs = {self.res(rv, s, d + 1) for kind, s, rv in self.explore(m, [o] + [self.res(x, st, d + 1) for x in e[2][1:]], st) if kind == "ret"}
                if len(rs) == 1: return next(iter(rs))
        if e[0] == "lin":
            acc = I(e[1])
            for t, k in e[2]: acc = add(acc, ir.mul(I(k), self.res(t, st, d + 1)))
            return acc
        r = tuple(self.res(x, st, d + 1) if isinstance(x, tuple) else x for x in e)
        if r[0] == "cmp" and r[2][0] in ("i", "T", "F") and r[3][0] in ("i", "T", "F"):
            a, b = [(int(x == ("T",)) if x[0] in "TF" else x[1]) for x in r[2:4]]
            c = ir.cmpc(r[1], a & 255 if abs(a) < 256 and abs(b) < 256 else a, b & 255 if abs(a) < 256 and abs(b) < 256 else b)
            if c is not None: return ("T",) if c else ("F",)
        if r[0] == "cmp" and r[1] in ("eq", "ne") and {r[2][0], r[3][0]} == {"new", "i"} and I(0) in r[2:4]: return ("F",) if r[1] == "eq" else ("T",)
        if r[0] == "sel":
            c = self.truth(r[1])
            if c is not None: return r[2] if c else r[3]
        if r[0] == "not" and self.truth(r[1]) is not None: return ("F",) if self.truth(r[1]) else ("T",)
        if r[0] in ("and", "or") and len(r) == 3:
            t = [self.truth(x) for x in r[1:]]
            for k in (0, 1):
                if t[k] is not None:
                    if t[k] == (r[0] == "or"): return ("T",) if t[k] else ("F",)
                    return r[2 - k]
        return r

    def truth(self, e):
        if e == ("T",) or (e[0] == "i" and e[1] != 0): return True
        if e == ("F",) or e == I(0): return False
        return None

    def decide(self, e, st):
        r = self.res(e, st)
        t = self.truth(r) if r[0] in ("T", "F", "i") else None
        return t if t is not None else super().decide(r, st)

    def on_store(self, i, addr, val, st, f):
        a = self.res(addr, st); v = self.res(val, st)
        st = frozenset(x for x in st if not (x[0] == "M" and x[1] == a))
        if v[0] in self.KEEP and a[0] in ("fld", "loc", "new", "off"): st = st | {("M", a, v)}
        return st

    def on_call(self, i, ts, args, st, f):
        r = super().on_call(i, ts, args, st, f)
        if r is not None: return r
        if not isinstance(i.callee, str) and args:
            o = self.res(args[0], st); c = [x[2] for x in st if x[0] == "CLS" and x[1] == o]
            m = method(self.p, c[0], self.p.vname(i)) if c else None
            if m is not None: ts = [m.name]
        if not ts or len(ts) != 1: return None
        g = self.p.funcs.get(ts[0])
        if g is not None and g.cls.startswith("std::unique_ptr") and g.base_nm in ("unique_ptr", "reset") and len(args) >= 2:
            v = self.res(args[1], st); a = ("up", self.res(args[0], st))
            if g.base_nm == "unique_ptr" and v not in (I(0),) and v[0] != "new" and self.mget(st, ("up", v)): v = self.mget(st, ("up", v))
            st = frozenset(x for x in st if not (x[0] == "M" and x[1] == a))
            return [(st | {("M", a, v)} if v[0] in self.KEEP else st, None)]
        if g is not None and not g.cls.startswith("std::") and g.base_nm == g.cls.split("::")[-1].split("<")[0] and args:
            o = self.res(args[0], st)
            st2 = st
            if o[0] == "new" and not any(x[0] == "CLS" and x[1] == o for x in st):
                first = not any(x[0] == "CLS" for x in st)
                st2 = st | {("CLS", o, g.cls, first)} | {("CTOR", o, g.name, tuple(self.res(a, st) for a in args[1:]))}
            if self.inline(g, i, args, st2):
                out = []
                av = [self.res(a, st2) for a in args]
                for kind, s2, rv in self.explore(g, av, st2, 1): 
                    if kind == "ret": out.append((s2, rv))
                return out
            return [(st2, None)]
        if g is not None and self.inline(g, i, args, st):
            out = []
            for kind, s2, rv in self.explore(g, [self.res(a, st) for a in args], st, 1):
                if kind == "ret": out.append((s2, rv))
            return out
        return None


FALLBACK = {("Providers", "CJP"): "ECP", ("Providers", "RDP"): "ECP"}   # hardware generators: the entropy collector stands in when the CPU has none
AUTHKEYED = ("RCS", "RWS")     # the authenticator, and with it the enumeral, is chosen from the key size at initialization
LINKED = ("Socket", "ErrorCodes", "SeekOrigin", "Kms")   # enumerations with values of their own


def digits(s):
    k = len(s)
    while k and s[k - 1].isdigit(): k -= 1
    return s[k:]


def run_C12(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("Every ToName/FromName pair is evaluated on each member of its enumeration (round trip, distinct names, unknown names give None); every factory is explored for each combination of "
                "members: it throws or returns a new object whose own Enumeral() is the member asked for; the size tables agree with the objects; the storage policies select the cipher "
                "of their strength; equally named members of enumerations that are converted into each other have equal values.")
    ctx.assume = ["hardware providers may be replaced by the entropy collector when the CPU lacks the instruction", "RCS/RWS pick their authenticator from the key size at initialization"]
    converters(ctx); factories(ctx); constants(ctx); sizes(ctx); policies(ctx); derivation(ctx); shared(ctx)
    ctx.floor("converters", 25); ctx.floor("factories", 15); ctx.floor("objects built", 100); ctx.floor("shared member pairs", 50)


def converters(ctx):
    p = ctx.p
    for f in sorted(p.funcs.values(), key=lambda f: f.short):
        if not f.cls.startswith("CEX::Enumeration::") or f.base_nm != "ToName" or len(f.sty) < 2 or f.sty[1] not in p.enums: continue
        g = [x for x in p.methods(f.cls) if x.base_nm == "FromName" and x.sty[0] == f.sty[1]]
        if not g: continue
        ctx.count("converters"); c = f.cls.split("::")[-1]
        E = p.enums[f.sty[1]]["e"]
        back = {}
        for kind, v, nm in results(ctx, g[0], {}):
            if kind == "ret": back.setdefault(tuple(nm), set()).add(v)
        if back.get(()) != {I(0)}: ctx.report(f"C12:{c}:unknown", f"{g[0].relfile}:{g[0].line}", f"{c}::FromName maps an unknown name to {sorted(map(show, back.get((), set())))} instead of None")
        for m, v in E:
            ctx.count("members converted")
            ns = {a for k, a, _ in results(ctx, f, {1: I(v)}) if k == "ret"}
            if len(ns) != 1 or None in ns:
                ctx.report(f"C12:{c}:{m}:name", f"{f.relfile}:{f.line}", f"{c}::ToName has no single name for {m}"); continue
            n = list(ns)[0]
            b = back.get((n,), back.get(()))
            if b != {I(v)}:
                dic = dict((y, x) for x, y in E)
                got = "/".join(sorted(dic.get(x[1], show(x)) if x[0] == "i" else show(x) for x in b or ()))
                ctx.report(f"C12:{c}:{m}:roundtrip", f"{f.relfile}:{f.line}", f"{c}: {m} is named '{n}', which converts back to {got}")
        ctx.sample(c)


def constants(ctx):
    """classes whose Enumeral() is one constant carry the name of that member"""
    p = ctx.p
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not (f.virt and f.base_nm == "Enumeral" and f.in_cex and len(f.blocks) == 1): continue
        et = f.sty[0].replace("const ", "")
        v = [ctx.ex.val(f, i.raw[3]) for i in f.insts if i.op == "ret"][0]
        if v[0] != "i" or et not in p.enums: continue
        ctx.count("constant enumerals"); cn = f.cls.split("::")[-1]
        nm = [m for m, x in p.enums[et]["e"] if x == v[1]]
        if nm != [cn]: ctx.report(f"C12:{cn}:enumeral", f"{f.relfile}:{f.line}", f"{cn}::Enumeral() reports {'/'.join(nm) or show(v)}")


def build(ctx, f, consts):
    """[(kind, class, constructor arguments, enumerals, explorer, state, object)] of a factory call with constant arguments"""
    p, ex = ctx.p, ctx.ex
    x = MemX(p, ex)
    a = [("arg", k) for k in range(f.nargs)]
    for k, v in consts.items(): a[k] = v
    out = []
    for kind, st, rv in x.explore(f, a, frozenset()):
        if kind != "ret": out.append(("throw", None, None, None, None)); continue
        rv = x.res(rv, st)
        cls = [y[2] for y in st if y[0] == "CLS" and y[1] == rv]
        if not cls: out.append(("null" if rv == I(0) else "other", None, None, None, rv)); continue
        args = [(y[2], y[3]) for y in st if y[0] == "CTOR" and y[1] == rv]
        # for owned helper objects the argument stands for how they were built themselves
        al = []
        for ar in args[0][1]:
            h = [(y[2], y[3]) for y in st if y[0] == "CTOR" and y[1] == ar]
            al.append(h[0] if h else ar)
        en = enumerals(ctx, cls[0], rv, st)
        out.append(("obj", cls[0], (args[0][0], tuple(al)), en, rv))
    return out


def enumerals(ctx, cls, obj, st):
    g = method(ctx.p, cls, "Enumeral")
    if g is None: return None
    y = MemX(ctx.p, ctx.ex); out = set()
    for k, s, r in y.explore(g, [obj], st):
        if k != "ret": continue
        r = y.res(r, s)
        while r[0] == "sel": out.add(r[3]); r = r[2]
        out.add(r)
    return out, g.sty[0].replace("const ", "")


def member_names(ctx, cargs):
    """enumeration members among the constants a constructor was given"""
    p = ctx.p; n, al = cargs; f = p.funcs[n]; out = []
    for (k, t), v in zip(f.param_types()[1:], al):
        t = t.replace("const ", "").rstrip("&")
        if v and v[0] == "i" and t in p.enums: out += [m for m, x in p.enums[t]["e"] if x == v[1]]
        elif isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], str) and v[0] in p.funcs: out += member_names(ctx, v)
    return out


def factories(ctx):
    p, ex = ctx.p, ctx.ex
    import itertools
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not (f.cls.startswith("CEX::Helper::") and f.nm == "GetInstance"): continue
        ps = [(k, t) for k, t in f.param_types_static() if t in p.enums]
        if not ps: continue
        ctx.count("factories"); c = f.cls.split("::")[-1]
        dom = [[v for m, v in p.enums[t]["e"]] for k, t in ps]
        built = {}
        for combo in itertools.product(*dom):
            nm = tuple([m for m, v in p.enums[t]["e"] if v == cv][0] for (k, t), cv in zip(ps, combo))
            for kind, cls, cargs, en, rv in build(ctx, f, {k: I(v) for (k, t), v in zip(ps, combo)}):
                if kind == "throw": continue
                if kind in ("null", "other"):
                    ctx.report(f"C12:{c}:{'-'.join(nm)}:null", f"{f.relfile}:{f.line}", f"{c}::GetInstance({', '.join(nm)}) can return " + ("a null pointer" if kind == "null" else "an object it did not create")); continue
                ctx.count("objects built")
                built.setdefault((cls, cargs), []).append(nm)
                identify(ctx, f, c, ps, combo, nm, cls, cargs, en)
                mem = member_names(ctx, cargs)
                for j, (k, t) in enumerate(ps):
                    has = [m for m in mem if m != "None" and any(m == x for x, v in p.enums[t]["e"])]
                    if has and nm[j] not in mem and not nm[j].startswith(cls.split("::")[-1]): ctx.report(f"C12:{c}:{nm[j]}:passed", f"{f.relfile}:{f.line}", f"{c}::GetInstance({', '.join(nm)}) builds {cls.split('::')[-1]}({', '.join(mem)})")
        idj = identity(ctx, ps, built)
        for j in range(len(ps)):
            t = ps[j][1].split("::")[-1]
            if j != idj:
                # a further parameter: a class takes it into account for all of its values or for none
                used = {cls for (cls, cargs), nms in built.items() for (c2, a2), n2 in built.items() if cls == c2 and cargs != a2
                        for x in nms for y in n2 if x[j] != y[j] and x[:j] + x[j + 1:] == y[:j] + y[j + 1:]}
            for (cls, cargs), nms in built.items():
                cn = cls.split("::")[-1]
                if j != idj and cls not in used: continue
                for a, b in itertools.combinations(nms, 2):
                    if a[j] == b[j] or a[:j] + a[j + 1:] != b[:j] + b[j + 1:]: continue
                    if cn in AUTHKEYED and a[j].startswith(cn + "K") and b[j].startswith(cn + "K"): continue
                    if any(FALLBACK.get((t, x[j])) == cn for x in (a, b)): continue
                    ctx.report(f"C12:{c}:{a[j]}-{b[j]}:same", f"{f.relfile}:{f.line}", f"{c}::GetInstance builds the same {cn} for {a[j]} and {b[j]}")


def identity(ctx, ps, built):
    """the parameter that names the class: the one whose value decides it"""
    n = [len({(nm[j], cls) for (cls, ca), nms in built.items() for nm in nms}) - len({nm[j] for nms in built.values() for nm in nms}) for j in range(len(ps))]
    return n.index(min(n)) if n else 0


def identify(ctx, f, c, ps, combo, nm, cls, cargs, en):
    p = ctx.p; cn = cls.split("::")[-1]
    if en is None: ctx.report(f"C12:{c}:{cn}:enumeral", f"{f.relfile}:{f.line}", f"{cn} has no Enumeral()"); return
    vals, et = en
    emap = dict((y, x) for x, y in p.enums[et]["e"]) if et in p.enums else {}
    names = {emap.get(v[1], show(v)) if v[0] == "i" else show(v) for v in vals}
    # the parameter that says which object is wanted
    js = [j for j, (k, t) in enumerate(ps) if t == et] or [j for j, (k, t) in enumerate(ps) if any(m == nm[j] for m in emap.values())] or [0]
    j = js[0]; want = nm[j]; t = ps[j][1].split("::")[-1]
    if want in names: 
        if len(names) == 1: return
    if cn == "XMSS" and want.startswith("XMSS") and names <= {"XMSS", "XMSSMT"}: return      # the parameter set decides between the tree variants
    if FALLBACK.get((t, want)) == cn and names == {cn}: return
    mem = member_names(ctx, cargs)
    if t == "KdfDigests" and len(names) == 1 and digits(next(iter(names))) in (digits(want), digits(want)[1:]) and (cn == "HKDF") == want.startswith("SHA2"): return
    if len(names) == 1 and want.startswith(next(iter(names))) and next(iter(names)) == cn:
        rest = want[len(cn):]
        if any(m == rest for m in mem) or any(digits(want) and digits(m).endswith(digits(want)) for m in mem): return
        if cn in AUTHKEYED and rest[:1] == "K" and ("T",) in cargs[1] + tuple(I(1) and ("T",) for x in cargs[1] if x in (I(1), I(-1))): return
    ctx.report(f"C12:{c}:{want}:object", f"{f.relfile}:{f.line}", f"{c}::GetInstance({', '.join(nm)}) builds {cn}({', '.join(mem)}), which reports {'/'.join(sorted(names))}")


def sizes(ctx):
    """DigestFromName's tables against the digest objects"""
    p, ex = ctx.p, ctx.ex
    cl = "CEX::Helper::DigestFromName"
    inst = [f for f in p.methods(cl, "GetInstance")]
    for tab, acc in (("GetBlockSize", "BlockSize"), ("GetDigestSize", "DigestSize")):
        for f in p.methods(cl, tab):
            et = f.sty[1]
            for m, v in p.enums[et]["e"]:
                x = MemX(p, ex)
                got = {x.res(rv, st) for kind, st, rv in x.explore(f, [I(v)], frozenset()) if kind == "ret"}
                for kind, cls, cargs, en, rv in build(ctx, inst[0], {0: I(v)}):
                    if kind != "obj": continue
                    g = method(p, cls, acc); y = MemX(p, ex)
                    own = {y.res(r, s) for k, s, r in y.explore(g, [rv], frozenset()) if k == "ret"}
                    ctx.count("size table entries")
                    if got and own and own != got and all(o[0] == "i" for o in own):
                        ctx.report(f"C12:{tab}:{m}", f"{f.relfile}:{f.line}", f"DigestFromName::{tab}({m}) is {'/'.join(map(show, got))}, the digest's {acc}() is {'/'.join(map(show, own))}")
                    if any(o[0] != "i" for o in own): ctx.count("sizes not constant")


def policies(ctx):
    p, ex = ctx.p, ctx.ex
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.base_nm != "GetStreamCipher" or not f.in_cex: continue
        ps = [(k, t) for k, t in f.param_types_static() if t.endswith("SecurityPolicy")]
        if not ps: continue
        k, t = ps[0]; c = f.cls.split("::")[-1]
        for m, v in p.enums[t]["e"]:
            if m == "None": continue
            ctx.count("policy cases"); n = 0
            for kind, cls, cargs, en, rv in build(ctx, f, {k: I(v)}):
                if kind == "throw": continue
                n += 1
                if kind != "obj" or en is None: ctx.report(f"C12:{c}:{m}:policy", f"{f.relfile}:{f.line}", f"{c}::GetStreamCipher({m}) returns no cipher"); continue
                emap = dict((y, x) for x, y in p.enums[en[1]]["e"])
                for v1 in en[0]:
                    nm = emap.get(v1[1], "?") if v1[0] == "i" else "?"
                    auth = "K" in nm; bits = digits(cls)
                    if auth != m.endswith("AE") or bits != digits(m[:-2] if m.endswith("AE") else m):
                        ctx.report(f"C12:{c}:{m}:policy", f"{f.relfile}:{f.line}", f"{c}::GetStreamCipher({m}) selects {nm} ({cls.split('::')[-1]})")
            if not n: ctx.report(f"C12:{c}:{m}:policy", f"{f.relfile}:{f.line}", f"{c}::GetStreamCipher({m}) never returns")


class ShakeOf(MemX):
    """the modes of the SHAKE generators a function constructs"""
    modes = None

    def on_call(self, i, ts, args, st, f):
        g = self.p.funcs.get(ts[0]) if ts and len(ts) == 1 else None
        if g is not None and g.cls == "CEX::Kdf::SHAKE" and g.base_nm == "SHAKE" and len(args) > 1:
            return [(st | {("MODE", self.res(args[1], st))}, None)]
        return super().on_call(i, ts, args, st, f)


def derivation(ctx):
    """the key that protects a stored key is derived with a function of the policy's strength"""
    p, ex = ctx.p, ctx.ex
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.base_nm != "GetSystemKey" or not f.in_cex: continue
        ps = [(k, t) for k, t in f.param_types_static() if t.endswith("SecurityPolicy")]
        if not ps: continue
        k, t = ps[0]; c = f.cls.split("::")[-1]
        em = {v: m for m, v in p.enums["CEX::Enumeration::ShakeModes"]["e"]}
        for m, v in p.enums[t]["e"]:
            if m == "None": continue
            x = ShakeOf(p, ex); a = [("arg", j) for j in range(f.nargs)]; a[k] = I(v)
            need = min(int(digits(m[:-2] if m.endswith("AE") else m)), 512)
            for kind, st, rv in x.explore(f, a, frozenset()):
                if kind != "ret": continue
                ctx.count("key derivation cases")
                got = {em.get(y[1][1], "?") if y[1][0] == "i" else "?" for y in st if y[0] == "MODE"}
                if not got or any(not digits(g) or int(digits(g)) < need for g in got):
                    ctx.report(f"C12:{c}:{m}:derivation", f"{f.relfile}:{f.line}", f"{c}::GetSystemKey({m}) derives the key with {'/'.join(sorted(got)) or 'no SHAKE generator'}")


def shared(ctx):
    p = ctx.p
    import itertools
    es = {n: e for n, e in p.enums.items() if n.startswith("CEX::Enumeration::") and not n.split("::")[-1].startswith(LINKED)}
    for n, e in es.items():
        vs = {}
        for m, v in e["e"]:
            if v in vs: ctx.report(f"C12:{n}:{m}:dup", f"{e['f'].split('/repo/')[-1]}:{e['l']}", f"{n.split('::')[-1]}: {m} and {vs[v]} have the same value")
            vs[v] = m
    for a, b in itertools.combinations(sorted(es), 2):
        da, db = dict(map(tuple, es[a]["e"])), dict(map(tuple, es[b]["e"]))
        for m in da:
            if m in db:
                ctx.count("shared member pairs")
                if da[m] != db[m]: ctx.report(f"C12:{a}:{b}:{m}:value", f"{es[b]['f'].split('/repo/')[-1]}:{es[b]['l']}", f"{m} is {da[m]} in {a.split('::')[-1]} and {db[m]} in {b.split('::')[-1]}, which are converted into each other")
