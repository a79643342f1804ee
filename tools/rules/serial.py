"""C14 serialization symmetry: every reader takes back, field by field and byte by byte, what its writer stored."""
import re
import ir, sym
from ir import I, add, root, show, mentions
from sym import Sym, Path, fold, subst
from frontend import Broken

MEMT = "CEX::Tools::MemoryTools"; INTT = "CEX::Tools::IntegerTools"; ARRT = "CEX::Tools::ArrayTools"
TSIZE = {"unsigned char": 1, "char": 1, "bool": 1, "unsigned short": 2, "unsigned int": 4, "unsigned long long": 8, "int": 4, "long long": 8}
# tables that are the same for every object of the class
CONSTANT = ("LegalKeySizes",)
# sizes kept in a wider type than the 32 bits every constructor gives them
NARROW = {"m_infoSize": 4, "m_keySize": 4, "m_ivSize": 4}


class Stream(Sym):
    """follows the bytes of vectors: P.size[vector], P.data[vector] = ((offset, length, what), ...), events ("rd", k, vector, offset, length, destination)"""
    def vsize(self, P, v):
        return P.size.get(v, ("size", v))

    def content(self, P, v):
        if v in P.data: return P.data[v]
        return ((I(0), self.vsize(P, v), ("bytes", v)),)

    def write(self, P, v, off, ln, what):
        P.data[v] = P.data.get(v, ()) + ((off, ln, what),)

    def read(self, P, v, off, ln, dst, f, i):
        k = ("rd", sum(1 for e in P.ev if e[0] == "rd"))
        P.ev.append(("rd", k, v, fold(off), fold(ln), dst, dict(P.cond), i.where() if callable(i.where) else ""))
        return k

    def isstream(self, v): return v == self.stream

    stream = None

    def inline(self, g, args, P):
        if not g.in_cex: return g.cls.startswith("std::initializer_list") or g.base_nm in ("begin", "end") and not g.cls
        return not g.cls.startswith(("CEX::Tools", "CEX::Exception", "CEX::Cipher::SymmetricKeyState")) and g.base_nm not in self.noinline and not g.sret

    noinline = (); forksel = True

    def load(self, P, a):
        if a[0] == "el" and self.isstream(a[1]) and a not in P.mem:
            return self.read(P, a[1], a[2], I(1), None, None, self.cur)
        return None

    def store(self, P, a, v, f, i):
        if a[0] == "el" and a[1][0] in ("loc", "arg", "new") and not self.isstream(a[1]) and a[1] in P.size:
            self.write(P, a[1], a[2], I(int(i.raw[3][1:]) // 8 if str(i.raw[3]).startswith("i") and str(i.raw[3])[1:].isdigit() else 1), v)
            return True
        return False

    def copyout(self, P, dst, ln, off, v, f, i):
        """ln bytes of the stream to an object"""
        k = self.read(P, v, off, ln, dst, f, i)
        P.mem[dst] = k

    def call(self, P, f, i, ts, args):
        self.cur = i
        p = self.p
        if i.callee and isinstance(i.callee, str) and i.callee.startswith("g:llvm.memcpy"): return self.memcpy(P, f, i, args)
        if not ts or len(ts) != 1: return None
        g = p.funcs.get(ts[0]); d = p.dem(ts[0])
        if g is None:
            if d.startswith(("memcpy", "memmove")): return self.memcpy(P, f, i, args)
            if d.startswith("operator new"): return [(P, P.fresh("new"))]
            m = re.match(r"(?:void )?std::vector<.*>::(\w+|~vector|operator\S+)\(", d)
            return None
        nm = g.base_nm; c = g.cls
        if c.startswith("std::vector"):
            if nm == "vector":
                v = args[0]
                if len(args) == 1: P.size[v] = I(0); P.data.pop(v, None)
                elif len(args) >= 3 and self.iterval(P, args[1]) is not None and self.iterval(P, args[2]) is not None:
                    a, b = self.iterval(P, args[1]), self.iterval(P, args[2])
                    ln = add(b[2], a[2], -1); P.size[v] = ln
                    self.take(P, a[1], a[2], v, I(0), ln, f, i)
                elif "vector" in (g.sty[2] if len(g.sty) > 2 else ""):
                    P.size[v] = self.vsize(P, args[1]); P.data[v] = self.content(P, args[1])
                elif "allocator" in (g.sty[2] if len(g.sty) > 2 else "x") and "unsigned" not in g.sty[2].split("allocator")[0]: P.size[v] = I(0)
                else: P.size[v] = args[1]; P.data.pop(v, None)
                return [(P, None)]
            if nm == "operator=":
                P.size[args[0]] = self.vsize(P, args[1]); P.data[args[0]] = self.content(P, args[1]); return [(P, args[0])]
            if nm == "resize": P.size[args[0]] = args[1]; return [(P, None)]
            if nm == "assign" and len(args) == 3:
                a, b = self.iterval(P, args[1]), self.iterval(P, args[2])
                if a is not None and b is not None:
                    ln = add(b[2], a[2], -1); P.size[args[0]] = ln; P.data.pop(args[0], None)
                    self.take(P, a[1], a[2], args[0], I(0), ln, f, i); return [(P, None)]
            if nm == "size": return [(P, self.vsize(P, args[0]))]
            if nm == "empty": return [(P, fold(("cmp", "eq", self.vsize(P, args[0]), I(0))))]
            if nm in ("operator[]", "at"): return [(P, ("el", args[0], args[1]))]
            if nm in ("data", "begin", "cbegin"): return [(P, ("el", args[0], I(0)))]
            if nm in ("end", "cend"): return [(P, ("el", args[0], self.vsize(P, args[0])))]
            if nm == "push_back" and len(args) == 2:
                v = P.mem.get(args[1], ("ld", args[1])); self.write(P, args[0], self.vsize(P, args[0]), I(1), v)
                P.size[args[0]] = add(self.vsize(P, args[0]), I(1)); return [(P, None)]
            if nm == "~vector": return [(P, None)]
            return None
        if c.startswith("__gnu_cxx::__normal_iterator"):
            a = self.iterval(P, args[0])
            if nm in ("operator+", "operator-") and a is not None:
                n = args[1] if args[1][0] != "loc" else P.mem.get(args[1], ("ld", args[1]))
                return [(P, ("el", a[1], add(a[2], n, 1 if nm == "operator+" else -1)))]
            return None
        if c == MEMT:
            if nm == "CopyFromObject":
                src, v, off, ln = args[:4]
                self.write(P, v, off, ln, P.mem.get(src, ("ld", src)) if src[0] != "el" else ("bytes", src[1])); return [(P, None)]
            if nm == "CopyToObject":
                self.copyout(P, args[2], args[3], args[1], args[0], f, i); return [(P, None)]
            if nm == "Copy": self.take(P, args[0], args[1], args[2], args[3], args[4], f, i); return [(P, None)]
            return None
        m = re.match(r"(Le|Be)(\d+)ToBytes$", nm) if c == INTT else None
        if m:
            n = int(m.group(2)) // 8
            if g.sret:
                P.size[args[0]] = I(n); P.data[args[0]] = ((I(0), I(n), (m.group(1), args[1])),)
            else: self.write(P, args[1], args[2], I(n), (m.group(1), args[0]))
            return [(P, None)]
        m = re.match(r"(Le|Be)BytesTo(\d+)$", nm) if c == INTT else None
        if m: return [(P, (m.group(1), self.read(P, args[0], args[1], I(int(m.group(2)) // 8), None, f, i)))]
        if c == ARRT and nm == "AppendVector":
            base = self.vsize(P, args[1])
            for off, ln, w in self.content(P, args[0]): self.write(P, args[1], add(base, off), ln, w)
            P.size[args[1]] = add(base, self.vsize(P, args[0])); return [(P, args[1])]
        if c == ARRT and nm == "AppendValue":
            t = g.sty[1]; n = TSIZE.get(t, self.p.enums.get(t, {}).get("w", 1))
            self.write(P, args[1], self.vsize(P, args[1]), I(n), args[0])
            P.size[args[1]] = add(self.vsize(P, args[1]), I(n)); return [(P, args[1])]
        if c == self.keycls and g.nargs == (2 if g.sret else 1) and nm not in ("Serialize", "DeSerialize"):
            if g.sret:
                P.size[args[0]] = ("size", ("acc", nm)); P.data[args[0]] = ((I(0), ("size", ("acc", nm)), ("bytes", ("acc", nm))),); return [(P, None)]
            return [(P, ("acc", nm))]
        if nm == c.split("::")[-1] and not c.startswith("std::") and args and args[0][0] == "fresh":
            P.ev.append(("ctor", g, args)); return [(P, None)]
        return None

    keycls = None

    def iterval(self, P, a):
        if a[0] == "el": return a
        v = P.mem.get(a)
        return v if v is not None and v[0] == "el" else None

    def take(self, P, src, soff, dst, doff, ln, f, i):
        if self.isstream(src):
            k = self.read(P, src, soff, ln, ("bytes", dst) if doff == I(0) else ("bytes", dst, doff), f, i); self.write(P, dst, doff, ln, k)
        elif src in P.data and soff == I(0) and fold(ln) == self.vsize(P, src):
            for o, l, w in P.data[src]: self.write(P, dst, add(doff, o), l, w)
        else:
            self.write(P, dst, doff, ln, ("bytes", src) if soff == I(0) else ("bytes", src, soff))

    def memcpy(self, P, f, i, args):
        d, s, n = args[:3]
        if s[0] == "el" and self.isstream(s[1]):
            if d[0] == "el": self.take(P, s[1], s[2], d[1], d[2], n, f, i)
            else: self.copyout(P, d, n, s[2], s[1], f, i)
            return [(P, d)]
        if d[0] == "el":
            if s[0] == "el": self.take(P, s[1], s[2], d[1], d[2], n, f, i)
            else: self.write(P, d[1], d[2], n, P.mem.get(s, ("ld", s)))
            return [(P, d)]
        P.mem[d] = P.mem.get(s, ("ld", s))
        return [(P, d)]

    def havoc(self, P, i, args):
        for a in args:
            for k in [k for k in P.mem if root(k) == a and a[0] == "loc"]: del P.mem[k]

    def decide(self, P, c):
        return None


def strip(e):
    """field a value comes from or goes to: ("field", name) | ("acc", name)"""
    if e and e[0] in ("Le", "Be"): e = e[1]
    if e and e[0] == "ld": e = e[1]
    if e and e[0] == "bytes": e = e[1] if len(e) == 2 else None
    if e and e[0] == "el" and e[2] == I(0): e = e[1]
    if e and e[0] == "fld": return ("field", e[2])
    if e and e[0] == "acc": return e
    return None


def pairs(p):
    """(label, writer, reader, kind)"""
    out = []
    by = {}
    for f in p.funcs.values():
        if not f.in_cex: continue
        if f.base_nm in ("Serialize", "DeSerialize", "ToBytes"): by.setdefault((f.cls, f.base_nm), []).append(f)
        if f.base_nm == f.cls.split("::")[-1] and f.nargs == 2 and len(f.sty) > 2 and "std::vector<unsigned char" in f.sty[2]: by.setdefault((f.cls, "ctor"), []).append(f)
    for (c, n), fs in sorted(by.items()):
        if n == "Serialize":
            w = fs[0]; r = by.get((c, "DeSerialize"), [None])[0]
            if r is None: continue
            key = len(w.sty) > 1 and w.sty[1].rstrip("&*") == c and w.sty[1].endswith("&")
            out.append((c, w, r, "key" if key else "state"))
        if n == "ToBytes" and (c, "ctor") in by: out.append((c, fs[0], by[(c, "ctor")][0], "params"))
    return out


def run_C14(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("For every writer/reader pair (Serialize/DeSerialize of the key containers and cipher states, ToBytes and the constructor from bytes of the parameter sets) the byte layout is "
                "computed from the code: the writer's items (offset, length, source) and the reader's items (offset, length, destination); they must be equal item by item, contiguous, of the field's "
                "own width, cover every data member and fill exactly the allocated array; each read must be guarded by a length test.")
    ps = pairs(p)
    for label, w, r, kind in ps: pair(ctx, label, w, r, kind)
    ctx.floor("pairs", 10); ctx.floor("fields compared", 60)


def pair(ctx, c, w, r, kind):
    p = ctx.p; cn = c.split("::")[-1]; ctx.count("pairs"); ctx.sample(cn)
    bad = lambda k, f, m: ctx.report(f"C14:{cn}:{k}", f"{f.relfile}:{f.line}", f"{cn}: {m}")
    # writer
    x = Stream(p, ctx.ex); x.keycls = c if kind == "key" else None
    args = [("arg", k) for k in range(w.nargs)]
    x.noinline = ("Serialize",)
    W = []
    for k, P, v in x.run(w, args):
        if k != "ret": continue
        out = ("arg", 0)
        W.append((P, [it for it in P.data.get(out, ())], x.vsize(P, out)))
    # reader
    y = Stream(p, ctx.ex)
    y.stream = ("arg", 0) if kind == "key" else ("arg", 1)
    tgt = r
    ra = [("arg", k) for k in range(r.nargs)]
    R = []
    for k, P, v in y.run(r, ra):
        if k != "ret": continue
        R.append((P, [e for e in P.ev if e[0] == "rd"], [e for e in P.ev if e[0] == "ctor"]))
    if not W: bad("writer", w, "the writer never returns"); return
    if not R: bad("reader", r, "the reader never returns"); return
    dm = [f for f in p.methods(c, "DistributionCodeMax")] if kind == "params" else []
    if dm: codesize(ctx, c, dm[0], bad)
    for P, items, size in W:
        ok = False
        for Q, reads, ctors in R:
            m = match(y, items, reads)
            if clash(P, Q, m): continue
            ok = True
            if not compare(ctx, cn, w, r, kind, c, x, y, P, items, size, Q, reads, ctors, bad, dm, m): return
        if not ok: bad("reader:path", r, "the reader has no path that takes back what a path of the writer stores")


def positive(P, m=None):
    """{expression: known to be positive / zero} from the branch conditions of a path"""
    out = {}
    for c, t in P.cond.items():
        if m: c = subst(c, m)
        if c[0] == "not": c, t = c[1], not t
        if c[0] != "cmp": continue
        op, a, b = c[1], c[2], c[3]
        if a[0] == "i": a, b = b, a; op = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(op, op)
        op = {"s": "u"}.get(op[0], op[0]) + op[1:]
        if b == I(0) and op in ("ugt", "ne"): out[a] = t
        elif b == I(0) and op in ("eq", "ule"): out[a] = not t
        elif b == I(1) and op in ("uge", "ult"): out[a] = t == (op == "uge")
        elif op in ("eq", "ne"): out[("eq", a, b)] = t == (op == "eq")
    return out


def clash(P, Q, m):
    a, b = positive(P), positive(Q, m)
    return any(k in b and b[k] != v for k, v in a.items())


def match(y, items, reads):
    """values of the reader's items in terms of the writer's, as far as the layouts agree"""
    m = {}
    todo = list(reads)
    for woff, wln, what in items:
        e = next((e for e in todo if subst(e[3], m) == fold(woff)), None)
        if e is None: continue
        todo.remove(e)
        e2 = what[0] if what and what[0] in ("Le", "Be") else None
        val = what[1] if e2 else what
        if val[0] != "bytes":
            m[e[1]] = val; m[("Le", e[1])] = val if e2 != "Be" else ("swapped", val); m[("Be", e[1])] = val if e2 != "Le" else ("swapped", val)
    return m


def codesize(ctx, c, dm, bad):
    """every constructor leaves the distribution code with DistributionCodeMax() elements"""
    p = ctx.p
    for f in p.methods(c):
        if f.base_nm != c.split("::")[-1] or f.nargs < 3 and not (len(f.sty) > 2 and "vector" in f.sty[2]): continue
        x = Stream(p, ctx.ex); x.stream = ("arg", 1)
        for k, P, v in x.run(f, [("arg", j) for j in range(f.nargs)]):
            if k != "ret": continue
            ctx.count("constructor paths")
            got = x.vsize(P, ("fld", ("arg", 0), "m_dstCode"))
            q = P.copy()
            want = {fold(v2) for k2, q2, v2 in Stream(p, ctx.ex).run(dm, [("arg", 0)], q) if k2 == "ret" and not clash(P, q2, {})}
            if fold(got) not in want: bad("code", f, f"a constructor leaves the distribution code with {show(got)} elements instead of {'/'.join(map(show, want))}")


def compare(ctx, cn, w, r, kind, c, x, y, P, items, size, Q, reads, ctors, bad, dm, m):
    p = ctx.p
    ctx.count("fields compared", len(items)); ctx.count("path pairs")
    eq = {k[1]: k[2] for k, v in positive(P).items() if k[0] == "eq" and v and k[2][0] == "i"}
    eq.update({k: I(0) for k, v in positive(P).items() if not v and k[0] != "eq"})
    if dm:
        ds = {fold(v2) for k2, q2, v2 in Stream(p, ctx.ex).run(dm[0], [("arg", 1)], P.copy()) if k2 == "ret" and not clash(P, q2, {})}
        if len(ds) == 1: eq[("size", ("fld", ("arg", 1), "m_dstCode"))] = next(iter(ds))
    red = lambda e: subst(subst(fold(e), m), eq)
    # the writer's layout
    end = I(0)
    for n, (off, ln, what) in enumerate(items):
        gap = add(red(off), red(end), -1)
        if gap != I(0): bad(f"writer:{n}:offset", w, f"item {n} ({name(what)}) is stored at offset {show(off)}, the previous one ends at {show(end)}"); return False
        end = add(end, ln)
    d = add(red(size), red(end), -1)
    if not nonneg(d):
        bad("writer:size", w, f"the array has {show(size)} bytes, {show(end)} are stored")
    # field widths
    widths = {m[1]: (m[2], m[4]) for m in p.tfields(c)} if kind != "key" else {}
    seen = set()
    for n, (off, ln, what) in enumerate(items):
        s = strip(what)
        if s and s[0] == "field":
            seen.add(s[1]); t, sz = widths.get(s[1], ("", None))
            isvec = t.startswith("std::vector")
            if what[0] == "bytes" or isvec:
                if what[0] == "bytes" and isvec:
                    if not eqlen(ln, s[1], t): bad(f"writer:{s[1]}:length", w, f"{show(ln)} bytes of {s[1]} are stored")
            elif sz is not None and ln != I(NARROW.get(s[1], sz)): bad(f"writer:{s[1]}:width", w, f"{show(ln)} of the {sz} bytes of {s[1]} are stored")
        elif s and s[0] == "acc": seen.add(s[1])
    if kind != "key":
        for f in widths:
            if f not in seen and f not in CONSTANT: bad(f"member:{f}", w, f"the member {f} is not stored")
    # the reader
    todo = list(reads); order = []
    for n, (woff, wln, what) in enumerate(items):
        e = next((e for e in todo if red(e[3]) == red(woff)), None)
        if e is None:
            rest = ", ".join(show(red(e[3])) for e in todo)
            bad(f"{n}:offset", r, f"item {n} ({name(what)}) is stored at {show(red(woff))}, " + (f"the reader takes the remaining ones from {rest}" if rest else "it is never read")); return False
        todo.remove(e); order.append(e)
        last = n == len(items) - 1
        rln = red(e[4])
        if rln != red(wln) and not (kind == "key" and last and rln == add(("size", y.stream), red(woff), -1)):
            bad(f"{n}:length", r, f"item {n} ({name(what)}) is stored with {show(red(wln))} bytes and read with {show(rln)}"); return False
    if todo: bad("reader:more", r, f"the reader takes {len(reads)} items, the writer stores {len(items)}"); return False
    plain = reads; reads = order
    # destinations
    ctorargs = {}
    if kind == "key":
        if len(ctors) != 1: bad("reader:object", r, "the reader does not build one key"); return
        g, av = ctors[0][1], ctors[0][2]
        names = g.pnames if hasattr(g, "pnames") else []
        for j, a in enumerate(av[1:], 1):
            ctorargs[j] = (g.sty[j + 1] if len(g.sty) > j + 1 else "", a)
    for n, e in enumerate(reads):
        what = items[n][2]; s = strip(what)
        if s is None: 
            if not lengthof(what): bad(f"{n}:source", w, f"item {n} is not a member ({show(what)})")
            continue
        ctx.count("destinations")
        if kind == "key":
            j = [j for j, (t, a) in ctorargs.items() if carries(Q, a, e)]
            want = [j for j, (t, a) in ctorargs.items() if accepts(p, c, s[1], t, j, ctors[0][1])]
            if not j or not set(j) & set(want): bad(f"{s[1]}:destination", r, f"{s[1]} is read back into constructor argument {j or 'none'}, expected {want}")
        else:
            d = [k[2] for k, v in Q.mem.items() if k[0] == "fld" and (v == e[1] or v in (("Le", e[1]), ("Be", e[1])))]
            if e[5] and strip(e[5]): d.append(strip(e[5])[1])
            if s[1] not in d and ("field", s[1]) not in [strip(w2) for w2 in ([e[5]] if e[5] else [])]: bad(f"{s[1]}:destination", r, f"{s[1]} is read back into {'/'.join(d) or 'nothing'}")
            e2 = what[0] if what[0] in ("Le", "Be") else None
            if e2:
                v = [v for k, v in Q.mem.items() if k[0] == "fld" and k[2] == s[1]]
                if v and v[0][0] in ("Le", "Be") and v[0][0] != e2: bad(f"{s[1]}:order", r, f"{s[1]} is stored {e2} and read {v[0][0]}")
            t, sz = widths.get(s[1], ("", None))
            if t.startswith("std::vector") and what[0] == "bytes":
                got = red(Q.size.get(("fld", ("arg", 0), s[1]), I(-1)))
                if got != ("size", ("fld", root_this(what), s[1])) and got != red(items[n][1]): bad(f"{s[1]}:resize", r, f"{s[1]} is resized to {show(got)} elements")
    # bounds
    for n, e in enumerate(plain):
        if not bounded(y, e, m, eq): bad("bounds", r, f"the reader takes {show(e[4])} bytes at {show(e[3])} of its input without a test of the input's length"); break
    ctx.count("reads", len(reads))
    return True


def nonneg(d):
    """a sum of sizes and stored lengths, none of which is negative"""
    return d[1] >= 0 if d[0] == "i" else d[1] >= 0 and all(k >= 0 for _, k in d[2]) if d[0] == "lin" else True


def root_this(what):
    return what[1][1] if what[0] == "bytes" and what[1][0] == "fld" else None


def name(what):
    s = strip(what)
    return s[1] if s else "a length" if lengthof(what) else show(what)


def lengthof(what):
    e = what[1] if what[0] in ("Le", "Be") else what
    return mentions(e, lambda t: t[0] == "size")


def eqlen(ln, f, t):
    """ln is all of the vector f"""
    e = fold(ln)
    if e[0] == "i": return True
    if e[0] == "size" and e[1][0] == "fld" and e[1][2] == f: return "vector_size" not in t and elem(t) == 1
    if e[0] == "lin" and e[1] == 0 and len(e[2]) == 1:
        (s, k), = e[2]
        return s[0] == "size" and s[1][0] == "fld" and s[1][2] == f and k == elem(t)
    return False


def elem(t):
    a = t[len("std::vector<"):]
    m = re.search(r"__vector_size__\((\d+) \* sizeof\(long long\)\)", a)
    if m: return 8 * int(m.group(1))
    m = re.match(r"std::array<([\w ]+), (\d+)", a)
    if m: return TSIZE.get(m.group(1), 1) * int(m.group(2))
    return TSIZE.get(a.split(",")[0], 1)


def carries(Q, a, e):
    """constructor argument a holds what was read by e"""
    if a == e[1] or a in (("Le", e[1]), ("Be", e[1])): return True
    for off, ln, w in Q.data.get(a, ()):
        if w == e[1]: return True
    return False


def accepts(p, c, acc, t, j, g):
    """the constructor parameter that the accessor returns"""
    fs = [f for f in p.methods(c, acc)]
    rt = fs[0].sty[0].replace("const ", "").rstrip("&") if fs else ""
    t = t.replace("const ", "").rstrip("&")
    if rt in p.enums: return rt == t
    vec = [k for k in range(1, len(g.sty) - 1) if "std::vector" in g.sty[k + 1]]
    order = {"Key": 0, "Polynomial": 0, "IV": 1, "Info": 2}
    return "std::vector" in t and j in vec and order.get(acc, -1) == vec.index(j)


def bounded(y, e, m, eq):
    need = add(e[3], e[4])
    sz = ("size", y.stream)
    if need == sz:   # reads up to the end: the start must lie inside
        need = e[3]
    for c, t in e[6].items():
        if c[0] != "cmp": continue
        op, a, b = c[1], c[2], c[3]
        if b == sz and a != sz: a, b = b, a; op = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(op, op)
        if a != sz: continue
        # size >= lim holds
        lim = None
        if (op, t) in (("ult", False), ("uge", True)): lim = b
        if (op, t) in (("ule", False), ("ugt", True)): lim = add(b, I(1))
        if (op, t) in (("eq", True), ("ne", False)): lim = b
        if lim is None: continue
        if nonneg(add(lim, need, -1)): return True
    return False
