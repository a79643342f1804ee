"""Whole-program model of the analysed library: functions (SSA form), record layouts, enums, constant
globals, class hierarchy; symbolic value expressions; context-sensitive path exploration."""
import json, re, sys
from collections import defaultdict
import frontend
from frontend import Broken

sys.setrecursionlimit(20000)


class Inst:
    __slots__ = ("op", "id", "line", "raw", "bb", "fn", "ix")

    def __init__(self, raw, bb, fn, ix):
        self.op = raw[0]; self.id = raw[1]; self.line = raw[2]; self.raw = raw; self.bb = bb; self.fn = fn; self.ix = ix

    def __repr__(self):
        return f"{self.fn.short}:{self.line} {self.raw}"

    # calls
    @property
    def is_call(self): return self.op in ("call", "invoke")
    @property
    def callee(self): return self.raw[4]
    @property
    def args(self): return self.raw[5]
    @property
    def normal(self): return self.raw[6]
    @property
    def unwind(self): return self.raw[7]
    @property
    def where(self):
        return f"{self.fn.relfile}:{self.line}"


class Func:
    def __init__(self, d, prog):
        self.d = d; self.prog = prog
        self.name = d["n"]; self.dem = d["d"]; self.file = d.get("f", ""); self.line = d.get("l", 0)
        self.cls = d.get("cls", ""); self.nm = d.get("nm", ""); self.nargs = d["na"]; self.sret = d["sret"]
        self.sty = d.get("sty", []); self.linkage = d["lk"]; self.rt = d["rt"]; self.virt = d.get("virt", 0)
        self.acc = d.get("acc", ""); self._b = None; self._defs = None; self._uses = None; self._preds = None
        self._heads = None

    @property
    def short(self):
        return (self.cls + "::" + self.nm) if self.cls else (self.nm or self.dem)

    @property
    def base_nm(self):
        """source name without template arguments"""
        n = self.nm
        if n.startswith("operator"): return n
        return n.split("<")[0]

    @property
    def relfile(self):
        f = self.file
        i = f.find("/CEX/")
        return f[i + 1:] if i >= 0 else f.rsplit("/", 1)[-1]

    @property
    def in_cex(self):
        return self.cls.startswith("CEX") or self.dem.find("CEX::") == 0 or "/CEX/" in self.file

    @property
    def blocks(self):
        if self._b is None:
            self._b = [[Inst(r, bi, self, ii) for ii, r in enumerate(b)] for bi, b in enumerate(self.d["b"])]
        return self._b

    @property
    def insts(self):
        for b in self.blocks:
            yield from b

    @property
    def calls(self):
        for i in self.insts:
            if i.op in ("call", "invoke"):
                yield i

    @property
    def defs(self):
        if self._defs is None:
            self._defs = {i.id: i for i in self.insts if i.id >= 0}
        return self._defs

    @property
    def uses(self):
        if self._uses is None:
            u = defaultdict(list)
            for i in self.insts:
                for v in operands(i):
                    if isinstance(v, int):
                        u[v].append(i)
            self._uses = u
        return self._uses

    def succs(self, bi):
        t = self.blocks[bi][-1]
        if t.op == "br": return t.raw[4]
        if t.op == "switch": return [t.raw[4]] + [c[1] for c in t.raw[5]]
        if t.op == "invoke": return [t.normal, t.unwind]
        return []

    @property
    def preds(self):
        if self._preds is None:
            p = defaultdict(list)
            for b in range(len(self.blocks)):
                for s in self.succs(b):
                    if b not in p[s]: p[s].append(b)
            self._preds = p
        return self._preds

    @property
    def heads(self):
        if self._heads is None:
            self._heads = {l["h"] for l in self.d.get("loops", [])}
        return self._heads

    @property
    def loops(self): return self.d.get("loops", [])

    def param(self, name):
        """argument index of a named source parameter"""
        off = 1 if self.sret else 0
        for k, n in self.d.get("pn", {}).items():
            if n == name: return int(k) - 1 + (0 if not self.sret else 1) - 0
        return None

    def param_types(self):
        """list of (ir arg index, source type) in order, `this` first for methods"""
        off = 1 if self.sret else 0
        return [(i + off, t) for i, t in enumerate(self.sty[1:])]

    def param_types_static(self):
        """(ir arg index, type) without `this`: the source signature lists no `this` for static functions"""
        off = 1 if self.sret else 0
        extra = self.nargs - off - len(self.sty[1:])
        return [(i + off + max(0, extra), t) for i, t in enumerate(self.sty[1:])]

    def reach(self, start, stop=()):
        seen = set(); st = [start]
        while st:
            b = st.pop()
            if b in seen or b in stop: continue
            seen.add(b); st.extend(self.succs(b))
        return seen


def operands(i):
    r = i.raw; op = i.op
    if op in ("call", "invoke"): return [r[4]] + r[5]
    if op == "br": return [r[3]] if r[3] is not None else []
    if op == "switch": return [r[3]]
    if op == "phi": return [v for v, _ in r[4]]
    if op == "gep": return [r[4]] + r[5]
    if op == "load": return [r[4]]
    if op == "store": return [r[4], r[5]]
    if op == "icmp": return [r[4], r[5]]
    if op == "select": return [r[4], r[5], r[6]]
    if op == "ret": return [r[3]] if r[3] is not None else []
    if op == "cast": return [r[5]]
    if op == "extractvalue": return [r[3]]
    if op == "x": return r[5:7] if r[3] == "shufflevector" else r[5:]
    if op in ("alloca", "lpad", "unreachable", "resume"): return []
    return r[4:6]  # binary


def I(n): return ("i", n)


def is_int(e): return e[0] == "i"


class Program:
    def __init__(self, path=None):
        self.funcs = {}; self.globals = {}; self.types = {}; self.enums = {}; self.decls = {}
        self.paths = frontend.ir_jsonl()
        seen = set()
        for path in self.paths:
            with open(path) as fh:
                for l in fh:
                    # the first two members are the kind and the name: skip repeated definitions without parsing
                    key = l[:l.index('"', l.index('"n":"') + 5)]
                    if key in seen: continue
                    seen.add(key)
                    d = json.loads(l); k = d["k"]
                    if k == "func": self.funcs[d["n"]] = Func(d, self)
                    elif k == "global": self.globals[d["n"]] = d
                    elif k == "type": self.types[d["n"]] = d
                    elif k == "enum": self.enums[d["n"]] = d
                    else: self.decls[d["n"]] = d
        self._cha = None; self._by_short = None; self._callers = None; self._ret = {}; self._getter = {}
        self._alias = {}; self._fieldcache = {}; self._subs = None; self._vcache = {}
        if len(self.funcs) < 5000 or len(self.types) < 500:
            raise Broken(f"program model too small: {len(self.funcs)} functions")

    # ---------------------------------------------------------------- lookup
    @property
    def by_short(self):
        if self._by_short is None:
            m = defaultdict(list)
            for f in self.funcs.values():
                if f.cls or f.nm: m[f.short].append(f)
            self._by_short = m
        return self._by_short

    def methods(self, cls, name=None):
        """functions of exactly this class (source-level), constructor variants included"""
        return [f for f in self.funcs.values() if f.cls == cls and (name is None or f.nm == name)]

    def tfields(self, ty):
        t = self.types.get(ty)
        return [m for m in t["m"] if m[0] == "field"] if t else []

    def bases(self, ty):
        t = self.types.get(ty)
        return [m[2] for m in t["m"] if m[0] == "base"] if t else []

    @property
    def subs(self):
        if self._subs is None:
            s = defaultdict(set)
            for n in self.types:
                st = [n]
                while st:
                    x = st.pop()
                    for b in self.bases(x):
                        if n not in s[b]:
                            s[b].add(n)
                        st.append(b)
            self._subs = s
        return self._subs

    def is_sub(self, a, b):
        return a == b or a in self.subs.get(b, ())

    # ---------------------------------------------------------------- class hierarchy (vtables)
    @property
    def cha(self):
        if self._cha is None:
            m = defaultdict(list)  # type id -> [(vtable name, offset/8 list)]
            for n, g in self.globals.items():
                if "types" in g and "init" in g:
                    flat = []
                    def fl(x):
                        if isinstance(x, list):
                            for y in x: fl(y)
                        else: flat.append(x)
                    fl(g["init"])
                    for off, tid in g["types"]:
                        m[tid].append((n, off // 8, flat))
            self._cha = m
        return self._cha

    def vtargets(self, tid, slot):
        k = (tid, slot)
        if k not in self._vcache:
            out = []
            for n, o, flat in self.cha.get(tid, ()):
                x = flat[o + slot] if o + slot < len(flat) else None
                if isinstance(x, str) and x.startswith("g:"):
                    x = x[2:]
                    if x != "__cxa_pure_virtual" and x not in out: out.append(x)
            self._vcache[k] = out
        return self._vcache[k]

    def callees(self, c):
        """possible target function names of a call instruction; None if unknown"""
        v = c.callee
        if isinstance(v, str):
            return [self.canon(v[2:])] if v.startswith("g:") else None
        vi = self.vinfo(c)
        if vi: return self.vtargets(*vi)
        return None

    def canon(self, n):
        """complete-object constructors and destructors are aliases of the base-object ones"""
        if n in self.funcs or not ("C1" in n or "D1" in n): return n
        if n not in self._alias:
            self._alias[n] = n
            for a, b in (("C1E", "C2E"), ("D1E", "D2E"), ("C1I", "C2I")):
                k = n.find(a)
                while k >= 0:
                    m = n[:k] + b + n[k + 3:]
                    if m in self.funcs and self.funcs[m].dem == self.dem(n): self._alias[n] = m
                    k = n.find(a, k + 1)
        return self._alias[n]

    def vinfo(self, c):
        """(type id, slot) for a virtual call"""
        f = c.fn
        if isinstance(c.callee, str): return None
        d = f.defs.get(c.callee)
        if not d or d.op != "load" or not isinstance(d.raw[4], int): return None
        g = f.defs.get(d.raw[4])
        slot = 0
        if g is None: return None
        if g.op == "gep" and g.raw[6] is not None:
            slot = g.raw[6] // 8; vt = g.raw[4]
        elif g.op == "load":
            vt = g.id
        else: return None
        for u in f.uses.get(vt, []):
            if u.op == "call" and u.callee in ("g:llvm.type.test", "g:llvm.public.type.test"):
                return (u.args[1][3:], slot)
        return None

    def vname(self, c):
        """source method name of a virtual call"""
        vi = self.vinfo(c)
        if not vi: return None
        for t in self.vtargets(*vi):
            f = self.funcs.get(t)
            if f and f.nm: return f.nm
        return None

    def target_names(self, c):
        """short source names of the callee(s)"""
        ts = self.callees(c)
        if not ts: return []
        return [self.funcs[t].short if t in self.funcs and self.funcs[t].nm else self.dem(t) for t in ts]

    def dem(self, n):
        if n in self.funcs: return self.funcs[n].dem
        if n in self.decls: return self.decls[n]["d"]
        return n

    @property
    def callers(self):
        if self._callers is None:
            m = defaultdict(list)
            for f in self.funcs.values():
                for c in f.calls:
                    for t in self.callees(c) or ():
                        m[t].append(c)
            self._callers = m
        return self._callers

    # ---------------------------------------------------------------- fields
    def field_at(self, irty, off):
        """name of the member of LLVM struct type `irty` at byte offset off -> (qualified type, field name, field type, rest)"""
        k = (irty, off)
        if k in self._fieldcache: return self._fieldcache[k]
        n = irty.strip('%').strip('"')
        n = re.sub(r"^(class|struct|union)\.", "", n)
        n = re.sub(r"\.base$", "", n)
        t = self.types.get(n)
        if t is None:
            n2 = re.sub(r"\.\d+$", "", n)
            t = self.types.get(n2); n = n2
        r = None
        if t is not None:
            r = self._field_in(n, t, off)
        self._fieldcache[k] = r
        return r

    def _field_in(self, n, t, off):
        for kind, fn, ft, fo, sz, _ in t["m"]:
            if kind == "static" or not (fo <= off < max(fo + sz, fo + 1)): continue
            if kind == "base":
                bt = self.types.get(ft)
                if bt and bt["m"]:
                    r = self._field_in(ft, bt, off - fo)
                    if r: return r
                continue
            return (n, fn, ft, off - fo)
        return None


# ==================================================================== expressions
PURE_STD = {"size", "data", "begin", "end", "cbegin", "cend", "front", "empty", "capacity", "length", "c_str"}


def lin_of(e):
    """(const, {term: coef})"""
    if e[0] == "i": return e[1], {}
    if e[0] == "lin": return e[1], dict(e[2])
    return 0, {e: 1}


def mk_lin(c, d):
    d = {t: k for t, k in d.items() if k != 0}
    if not d: return I(c)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1: return t
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def add(a, b, s=1):
    c1, d1 = lin_of(a); c2, d2 = lin_of(b)
    d = dict(d1)
    for t, k in d2.items(): d[t] = d.get(t, 0) + s * k
    return mk_lin(c1 + s * c2, d)


def mul(a, b):
    if is_int(a) and is_int(b): return I(a[1] * b[1])
    if is_int(b): a, b = b, a
    if is_int(a):
        c, d = lin_of(b)
        return mk_lin(a[1] * c, {t: a[1] * k for t, k in d.items()})
    return ("mul",) + tuple(sorted((a, b), key=repr))


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ugt": "ule", "ule": "ugt", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt"}
BOOLISH = ("cmp", "not", "T", "F", "tok")


def negate(e):
    if e == ("T",): return ("F",)
    if e == ("F",): return ("T",)
    if e[0] == "not": return e[1]
    if e[0] == "cmp": return ("cmp", NEG.get(e[1], "!" + e[1]), e[2], e[3])
    return ("not", e)


def is_bool(e, fn=None):
    return e[0] in BOOLISH


class Exprs:
    """symbolic expressions of SSA values of one function (context-free); phis are opaque unless an env gives them"""

    def __init__(self, prog):
        self.p = prog; self.memo = {}; self.retmemo = {}

    def val(self, f, v, env=None, subst=None, depth=0):
        if isinstance(v, str):
            if v.startswith("i:"): return I(int(v[2:]))
            if v.startswith("g:"): return ("g", v[2:])
            if v.startswith("ge:"):
                _, off, base = v.split(":", 2)
                return ("off", self.val(f, base), int(off))
            if v in ("null", "zero"): return I(0)
            if v == "undef": return ("undef",)
            return ("k", v)
        if v is None: return ("k", None)
        if subst is not None and v < f.nargs: return subst[v]
        if env and v in env: return env[v]
        if v < f.nargs: return ("arg", v)
        key = (f.name, v)
        if env is None and subst is None and key in self.memo: return self.memo[key]
        if depth > 60: return ("v", f.name, v)
        e = self.inst(f, f.defs[v], env, subst, depth + 1)
        if env is None and subst is None: self.memo[key] = e
        return e

    def inst(self, f, i, env, subst, depth):
        op = i.op; r = i.raw
        g = lambda v: self.val(f, v, env, subst, depth)
        if op == "gep":
            base = g(r[4]); off = r[6]
            if off is not None:
                if r[3].startswith("%") and len(r[5]) > 1:
                    fi = self.p.field_at(r[3], off)
                    if fi and fi[3] == 0:
                        return ("fld", base, fi[1])
                    if fi:
                        return ("off", ("fld", base, fi[1]), fi[3])
                if off == 0: return base
                if base[0] == "el" : return ("el", base[1], add(base[2], I(off // max(1, r[7])))) if off % max(1, r[7]) == 0 and not r[3].startswith("%") else ("off", base, off)
                return ("off", base, off)
            idx = [g(x) for x in r[5]]
            if len(idx) == 1:
                if base[0] == "el": return ("el", base[1], add(base[2], idx[0]))
                return ("el", base, idx[0])
            if len(idx) == 2 and idx[0] == I(0):
                return ("el", base, idx[1])
            return ("el", base, tuple(idx))
        if op == "load":
            a = g(r[4])
            return ("ld", a)
        if op == "cast":
            e = g(r[5])
            if r[3] == "trunc" and r[4] == "i1":
                if is_int(e): return ("T",) if e[1] & 1 else ("F",)
                return e
            return e if r[3] in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast", "addrspacecast") else ("cast", r[3], e)
        if op == "icmp":
            a, b = g(r[4]), g(r[5]); pred = r[3]
            for x, y in ((a, b), (b, a)):
                if y[0] == "i" and self.boolval(f, x) and pred in ("eq", "ne") and y[1] in (0, 1, -1):
                    t = (y[1] != 0) == (pred == "eq")
                    return x if t else negate(x)
            if x_is_const(a) and x_is_const(b):
                r0 = cmpc(pred, a[1], b[1])
                if r0 is not None: return ("T",) if r0 else ("F",)
            return ("cmp", pred, a, b)
        if op in ("add", "sub"): return add(g(r[4]), g(r[5]), 1 if op == "add" else -1)
        if op == "mul": return mul(g(r[4]), g(r[5]))
        if op == "shl":
            a, b = g(r[4]), g(r[5])
            return mul(a, I(1 << b[1])) if is_int(b) and 0 <= b[1] < 64 else ("shl", a, b)
        if op == "xor":
            a, b = g(r[4]), g(r[5])
            if r[3] == "i1":
                if b in (I(-1), I(1), ("T",)): return negate(a)
            return ("xor",) + tuple(sorted((a, b), key=repr))
        if op in ("and", "or"):
            a, b = g(r[4]), g(r[5])
            if is_int(a) and is_int(b): return I(a[1] & b[1] if op == "and" else a[1] | b[1])
            return (op,) + tuple(sorted((a, b), key=repr))
        if op in ("udiv", "sdiv", "urem", "srem", "lshr", "ashr"):
            a, b = g(r[4]), g(r[5])
            if is_int(a) and is_int(b) and b[1] != 0:
                if op in ("udiv",): return I(a[1] // b[1])
                if op in ("urem",): return I(a[1] % b[1])
            return (op[1:] if op[0] in "us" else op, a, b)
        if op == "select":
            c = g(r[4])
            if c == ("T",): return g(r[5])
            if c == ("F",): return g(r[6])
            a, b = g(r[5]), g(r[6])
            return a if a == b else ("sel", c, a, b)
        if op == "phi":
            vals = {repr(x): x for x in (self.val(f, v, env, subst, depth + 8) if v != i.id else None for v, _ in r[4]) if x is not None} if depth < 30 and i.bb not in f.heads else {}
            if len(vals) == 1: return next(iter(vals.values()))
            return ("v", f.name, i.id)
        if op in ("call", "invoke"):
            return self.call(f, i, env, subst, depth)
        if op == "alloca": return ("loc", f.name, i.id)
        return ("v", f.name, i.id)

    def boolval(self, f, x):
        if x[0] in BOOLISH: return True
        if x[0] == "ld":
            return self.is_bool_addr(x[1])
        if x[0] in ("c", "m"): return x[-1] == "bool"
        if x[0] == "v":
            fn = self.p.funcs.get(x[1])
            if fn and x[2] in fn.defs:
                d = fn.defs[x[2]]
                if d.op in ("phi", "select"): return d.raw[3] == "i1"
                if d.op in ("call", "invoke"): return d.raw[3] == "i1"
        return False

    def is_bool_addr(self, a):
        # a field whose declared type is bool
        if a[0] == "fld":
            return a[2] in self.boolfields
        return False

    @property
    def boolfields(self):
        if not hasattr(self, "_bf"):
            yes, no = set(), set()
            for t in self.p.types.values():
                for k, fn, ft, *_ in t["m"]:
                    if k == "field":
                        (yes if ft.replace("const ", "") == "bool" else no).add(fn)
            self._bf = yes - no
        return self._bf

    def call(self, f, i, env, subst, depth):
        p = self.p
        g = lambda v: self.val(f, v, env, subst, depth)
        ts = p.callees(i)
        if ts and len(ts) == 1 and isinstance(i.callee, str):
            n = ts[0]; fn = p.funcs.get(n)
            short = fn.nm if fn and fn.nm else p.dem(n)
            cls = fn.cls if fn else ""
            if cls.startswith("std::") or n.startswith("_ZNS") or n.startswith("_ZNKS") or n.startswith("_ZSt"):
                base = short.split("<")[0] if fn else re.sub(r"\(.*", "", p.dem(n)).split("::")[-1]
                if "unique_ptr" in (cls or p.dem(n)):
                    if base in ("operator->", "get", "operator*"): return ("up", g(i.args[0]))
                    if base == "operator bool": return ("cmp", "ne", ("up", g(i.args[0])), I(0))
                if base in ("operator!=", "operator==") and "unique_ptr" in n:
                    return ("cmp", "ne" if base.endswith("!=") else "eq", ("up", g(i.args[0])), I(0))
                if base in ("operator[]", "at") and len(i.args) >= 2: return ("el", g(i.args[0]), g(i.args[1]))
                if base in ("data", "begin", "cbegin", "front", "c_str") and len(i.args) == 1: return ("el", g(i.args[0]), I(0))
                if base in ("size", "length") and len(i.args) == 1: return ("size", g(i.args[0]))
                if base == "empty" and len(i.args) == 1: return ("cmp", "eq", ("size", g(i.args[0])), I(0))
                if base in ("forward", "move", "__addressof", "addressof") and len(i.args) == 1: return g(i.args[0])
                if base in ("min", "max") and len(i.args) == 2: return (base, ("ld", g(i.args[0])), ("ld", g(i.args[1])))
                return ("v", f.name, i.id) if i.id >= 0 else ("k", None)
            if n in ("_Znwy", "_Znwm", "_Znay"): return ("new", f.name, i.id)
            if fn:
                re_ = self.retexpr(fn)
                if re_ is not None:
                    return self.substitute(re_, [g(a) for a in i.args])
                return ("c", n, tuple(g(a) for a in i.args), "bool" if i.raw[3] == "i1" else "")
            return ("v", f.name, i.id)
        if ts and not isinstance(i.callee, str):
            nm = p.vname(i)
            return ("m", nm, tuple(g(a) for a in i.args), "bool" if i.raw[3] == "i1" else "")
        return ("v", f.name, i.id)

    def retexpr(self, fn):
        """the function's result as an expression over its arguments, when every return yields the same closed one"""
        if fn.name in self.retmemo: return self.retmemo[fn.name]
        self.retmemo[fn.name] = None
        res = None
        if not fn.sret and fn.rt != "void" and len(fn.blocks) < 60:
            rs = [i for i in fn.insts if i.op == "ret" and i.raw[3] is not None]
            if len(rs) == 1:
                e = self.val(fn, rs[0].raw[3])
                if self.closed(e) and not self.impure(fn): res = e
        self.retmemo[fn.name] = res
        return res

    def impure(self, fn):
        """has stores to anything that is not local"""
        for i in fn.insts:
            if i.op == "store":
                e = self.val(fn, i.raw[5])
                if root(e)[0] != "loc": return True
        return False

    def closed(self, e):
        if not isinstance(e, tuple): return True
        if e and e[0] in ("v", "loc", "new", "undef"): return False
        return all(self.closed(x) for x in e[1:] if isinstance(x, tuple))

    def substitute(self, e, args):
        if not isinstance(e, tuple): return e
        if len(e) == 2 and e[0] == "arg" and isinstance(e[1], int):
            return args[e[1]] if e[1] < len(args) else e
        if e and e[0] == "lin":
            acc = I(e[1])
            for t, k in e[2]: acc = add(acc, mul(I(k), self.substitute(t, args)))
            return acc
        r = tuple(self.substitute(x, args) for x in e)
        if r and r[0] == "el" and r[1][0] == "el": return ("el", r[1][1], add(r[1][2], r[2]))
        if r and r[0] == "mul" and len(r) == 3: return mul(r[1], r[2])
        return r


def x_is_const(e): return e[0] == "i"


def cmpc(p, a, b):
    return {"eq": a == b, "ne": a != b, "slt": a < b, "sgt": a > b, "sle": a <= b, "sge": a >= b,
            "ult": a < b if a >= 0 and b >= 0 else None, "ugt": a > b if a >= 0 and b >= 0 else None,
            "ule": a <= b if a >= 0 and b >= 0 else None, "uge": a >= b if a >= 0 and b >= 0 else None}.get(p)


def root(e):
    """the object an address expression is rooted in"""
    while True:
        if e[0] in ("fld", "off", "el", "up", "ld", "size"): e = e[1]
        else: return e


def mentions(e, pred):
    if not isinstance(e, tuple): return False
    if e and isinstance(e[0], str) and pred(e): return True
    return any(mentions(x, pred) for x in e if isinstance(x, tuple))


def show(e, d=0):
    if not isinstance(e, tuple): return str(e)
    if not e: return "()"
    k = e[0]
    if d > 12: return "..."
    if not isinstance(k, str): return "(" + ", ".join(show(x, d + 1) for x in e) + ")"
    s = lambda x: show(x, d + 1)
    if k == "i": return str(e[1])
    if k == "arg": return f"arg{e[1]}"
    if k == "fld": return f"{s(e[1])}.{e[2]}"
    if k == "ld": return f"*{s(e[1])}"
    if k == "up": return f"{s(e[1])}->"
    if k == "el": return f"{s(e[1])}[{s(e[2])}]"
    if k == "size": return f"size({s(e[1])})"
    if k == "lin": return "(" + " + ".join(([str(e[1])] if e[1] else []) + [(f"{c}*" if c != 1 else "") + s(t) for t, c in e[2]]) + ")"
    if k == "cmp": return f"({s(e[2])} {e[1]} {s(e[3])})"
    if k in ("c", "m"): return f"{e[1] if k == 'm' else e[1]}({', '.join(s(x) for x in e[2])})"
    if k == "g": return "@" + e[1]
    if k == "loc": return f"local#{e[2]}"
    if k == "v": return f"%{e[2]}"
    return k + "(" + ", ".join(s(x) for x in e[1:]) + ")"


# ==================================================================== path exploration
class Explorer:
    """context-sensitive, path-sensitive exploration of a function's flow graph.

    A state is (facts) where facts is a frozenset of (expr, bool) decided branch conditions of interest plus
    rule-specific tags.  Subclasses override:
      relevant(expr)         -> canonical key when the truth of this condition is to be remembered, else None
      on_call(inst, fn_names, args, st) -> None (default) | list of (state, retexpr)
      inline(fn, args)       -> bool, explore the callee in context
      on_throw(inst, typeinfo, st); on_ret(...)
    """
    MAXVISIT = 60000
    MAXDEPTH = 8

    def __init__(self, prog, ex):
        self.p = prog; self.ex = ex; self.n = 0; self.trace = []; self.memo = {}; self.stack = []; self.violations = []

    def relevant(self, e): return None
    def on_call(self, i, ts, args, st, ctx): return None
    def inline(self, fn, i, args, st): return False
    def on_throw(self, i, ti, st, ctx): return st
    def on_store(self, i, addr, val, st, ctx): return st
    def on_ret(self, f, st, ctx): pass
    def decide(self, e, st):
        """truth of a condition in a state, or None"""
        if e == ("T",): return True
        if e == ("F",): return False
        neg = False
        while e[0] == "not": neg = not neg; e = e[1]
        k = self.relevant(e)
        if k is not None:
            for (kk, b) in st:
                if kk == k: return b != neg
        if e[0] == "cmp":
            k = self.relevant(("cmp", NEG.get(e[1]), e[2], e[3]))
            if k is not None:
                for (kk, b) in st:
                    if kk == k: return (not b) != neg
        return None

    def assume(self, e, truth, st):
        while e[0] == "not": truth = not truth; e = e[1]
        if e[0] in ("and", "or") and len(e) == 3 and truth == (e[0] == "and"):
            for x in e[1:]:
                if st is not None: st = self.assume(x, truth, st)
            return st
        k = self.relevant(e)
        if k is None and e[0] == "cmp":
            e2 = negate(e); k = self.relevant(e2); truth2 = not truth
            if k is not None: truth = truth2; e = e2
        if k is None: return self.assume_extra(e, truth, st)
        for kk, b in st:
            if kk == k: return st if b == truth else None
        return self.assume_extra(e, truth, st | {(k, truth)})

    def assume_extra(self, e, truth, st): return st

    def explore(self, f, args, st, depth=0):
        """-> list of (kind, state, retexpr), kind in ret/throw"""
        key = (f.name, tuple(args), st)
        if key in self.memo: return self.memo[key]
        if f.name in self.stack or depth > self.MAXDEPTH:
            return [("ret", st, ("v", f.name, -1))]
        self.stack.append(f.name)
        out = set()
        seen = set()
        work = [(0, -1, st, ())]
        heads = f.heads
        while work:
            bi, pred, s, envt = work.pop()
            if (bi, pred if self._phis(f, bi) else -1, s, envt) in seen: continue
            seen.add((bi, pred if self._phis(f, bi) else -1, s, envt))
            self.n += 1
            if self.n > self.MAXVISIT: raise Broken(f"path exploration budget exceeded in {f.short}")
            env = dict(envt)
            blk = f.blocks[bi]
            newenv = {}
            for i in blk:
                if i.op != "phi": break
                if self._bound_phi(f, i):
                    for v, pb in i.raw[4]:
                        if pb == pred:
                            e = self.ex.val(f, v, env, args)
                            if bi in heads and i.raw[3] != "i1" and not (i.raw[3] == "i8" and e in (I(0), I(1))): e = ("v", f.name, i.id)
                            elif bi in heads and e[0] not in ("T", "F", "tok", "i"): e = ("v", f.name, i.id)
                            newenv[i.id] = self.norm(e, i.raw[3])
            env.update(newenv)
            states = [(s, env)]
            done = False
            for i in blk:
                if i.op == "store":
                    ns = []
                    for s1, e1 in states:
                        s2 = self.on_store(i, self.ex.val(f, i.raw[5], e1, args), self.ex.val(f, i.raw[4], e1, args), s1, f)
                        if s2 is not None: ns.append((s2, e1))
                    states = ns
                elif i.op in ("call", "invoke"):
                    ns = []
                    ts = self.p.callees(i)
                    for s1, e1 in states:
                        if i.callee == "g:__cxa_throw":
                            s2 = self.on_throw(i, i.args[1][2:] if isinstance(i.args[1], str) else None, s1, f)
                            self._unwind(f, i, s2, e1, work, out, bi)
                            continue
                        av = [self.ex.val(f, a, e1, args) for a in i.args]
                        r = self.on_call(i, ts, av, s1, f)
                        if r is None and ts and len(ts) == 1 and ts[0] in self.p.funcs and self.inline(self.p.funcs[ts[0]], i, av, s1):
                            r = []
                            for kind, s2, rv in self.explore(self.p.funcs[ts[0]], av, s1, depth + 1):
                                if kind == "ret": r.append((s2, rv))
                                else: self._unwind(f, i, s2, e1, work, out, bi)
                        if r is None:
                            ns.append((s1, e1))
                        else:
                            for s2, rv in r:
                                if rv is not None and i.id >= 0:
                                    e2 = dict(e1); e2[i.id] = rv; ns.append((s2, e2))
                                else: ns.append((s2, e1))
                    states = ns
                if not states: break
            if not states: continue
            t = blk[-1]
            for s1, e1 in states:
                et = tuple(sorted(((k, v) for k, v in e1.items()), key=lambda x: x[0]))
                if t.op == "ret":
                    rv = self.ex.val(f, t.raw[3], e1, args) if t.raw[3] is not None else None
                    self.on_ret(f, s1, rv)
                    out.add(("ret", s1, rv))
                elif t.op == "br":
                    if t.raw[3] is None: work.append((t.raw[4][0], bi, s1, et))
                    else:
                        c = self.ex.val(f, t.raw[3], e1, args)
                        c = self.norm(c, "i1")
                        d = self.decide(c, s1)
                        for truth, nb in ((True, t.raw[4][0]), (False, t.raw[4][1])):
                            if d is None or d == truth:
                                s2 = self.assume(c, truth, s1)
                                if s2 is not None: work.append((nb, bi, s2, et))
                elif t.op == "switch":
                    c = self.ex.val(f, t.raw[3], e1, args)
                    if is_int(c):
                        nb = t.raw[4]
                        for v, b in t.raw[5]:
                            if v == c[1]: nb = b
                        work.append((nb, bi, s1, et))
                    else:
                        vals = [v for v, _ in t.raw[5]]
                        for v, b in t.raw[5]:
                            s2 = self.assume(("cmp", "eq", c, I(v)), True, s1)
                            if s2 is not None and self.decide(("cmp", "eq", c, I(v)), s1) is not False: work.append((b, bi, s2, et))
                        s2 = s1
                        for v in vals:
                            if s2 is None: break
                            if self.decide(("cmp", "eq", c, I(v)), s2) is True: s2 = None; break
                            s2 = self.assume(("cmp", "eq", c, I(v)), False, s2)
                        if s2 is not None: work.append((t.raw[4], bi, s2, et))
                elif t.op == "invoke":
                    if t.callee != "g:__cxa_throw":
                        work.append((t.normal, bi, s1, et))
                        self._unwind(f, t, s1, e1, work, out, bi)
                elif t.op == "resume": out.add(("throw", s1, None))
        self.stack.pop()
        res = sorted(out, key=repr)
        self.memo[key] = res
        return res

    def norm(self, e, ty):
        if ty == "i1" and e[0] == "i": return ("T",) if e[1] else ("F",)
        return e

    def _phis(self, f, bi):
        b = f.blocks[bi]
        return bool(b) and b[0].op == "phi"

    def _bound_phi(self, f, i):
        return i.raw[3] in ("i1", "i8", "i32", "i16", "i64", "ptr")

    def _unwind(self, f, i, s, env, work, out, bi):
        if i.op == "invoke" and i.unwind >= 0:
            lp = next((x for x in f.blocks[i.unwind] if x.op == "lpad"), None)
            if lp is not None and lp.raw[4]:  # a handler: its code runs
                et = tuple(sorted(((k, v) for k, v in env.items()), key=lambda x: x[0]))
                work.append((i.unwind, bi, s, et))
                return
        out.add(("throw", s, None))
