"""Context-sensitive secret-taint analysis over the SSA form.

A function is analysed for a set of secret scalar arguments and secret memory (object paths); the result says whether
the return value and which reachable memory become secret, and where control flow or an address depends on a secret."""
import ir
from ir import root, show
from frontend import Broken

VARTIME = {"memcmp", "strcmp", "strncmp", "bcmp"}


def okey(e):
    """object path of an address: element indices and byte offsets dropped"""
    while True:
        if e[0] in ("el", "off"): e = e[1]
        elif e[0] == "fld":
            b = okey(e[1]); return ("fld", b, e[2])
        elif e[0] in ("ld", "up"):
            b = okey(e[1]); return (e[0], b)
        else: return e


def within(k, base):
    """k is base or lies inside it"""
    while True:
        if k == base: return True
        if k[0] in ("fld", "ld", "up"): k = k[1]
        else: return False


def rebase(k, old, new):
    if k == old: return new
    if k[0] == "fld": return ("fld", rebase(k[1], old, new), k[2])
    if k[0] in ("ld", "up"): return (k[0], rebase(k[1], old, new))
    return k


class Taint:
    def __init__(self, p, ex, declassify=(), ret_public=(), opaque=()):
        self.p = p; self.ex = ex; self.memo = {}; self.kmemo = {}; self.stack = []; self.leaks = {}
        self.ret_public = ret_public; self.fns = set(); self.boundary = set(); self.opaque = opaque; self.declassify = declassify

    def leak(self, f, i, what):
        self.leaks.setdefault((f.name, i.line, what), (f, i, what))

    def run(self, f, vals, mem, depth=0):
        """vals: secret argument indices; mem: secret object paths rooted at ('arg', k) -> (ret secret, out mem)"""
        key = (f.name, frozenset(vals), frozenset(mem))
        if key in self.memo: return self.memo[key]
        if f.name in self.stack or depth > 25: return (True, frozenset(mem))
        self.memo[key] = (False, frozenset(mem))
        self.stack.append(f.name); self.fns.add(f.name)
        T = set(vals); M = set(mem); ret = False
        slots = {}  # allocas that hold only pointers/scalars behave like memory keyed by themselves
        leaks = {}
        for _ in range(40):
            n0 = (len(T), len(M), ret)
            for i in f.insts:
                ret = self.step(f, i, T, M, ret, leaks, depth)
            if (len(T), len(M), ret) == n0: break
        self.stack.pop()
        self.leaks.update(leaks)
        out = frozenset(k for k in M if root(k)[0] in ("arg", "g"))
        self.memo[key] = (ret, out)
        return ret, out

    def sec(self, v, T): return isinstance(v, int) and v in T

    def msec(self, k, M):
        while True:
            if k in M: return True
            if k[0] in ("fld", "ld", "up"): k = k[1]
            else: return False

    def addr(self, f, v): return self.ex.val(f, v)

    def isptr(self, f, v):
        """the value can denote an object: integers are not followed (their expressions can be huge)"""
        if isinstance(v, str): return v.startswith("g")
        if not isinstance(v, int): return False
        if v < f.nargs: return f.d["at"][v] == "ptr"
        d = f.defs[v]; r = d.raw
        if d.op in ("gep", "alloca", "lpad", "extractvalue"): return True
        if d.op in ("load", "phi", "select", "call", "invoke"): return r[3] == "ptr"
        if d.op == "cast": return r[3] == "inttoptr"
        return False

    def keys(self, f, v):
        """the object paths an address value may denote (pointer phis and selects resolved)"""
        if not isinstance(v, int): return (okey(self.addr(f, v)),)
        if not self.isptr(f, v): return ()
        k = (f.name, v)
        if k not in self.kmemo:
            self.kmemo[k] = (); out = set(); seen = set(); st = [v]
            while st:
                x = st.pop()
                if x in seen: continue
                seen.add(x)
                if not isinstance(x, int) or x < f.nargs: out.add(okey(self.addr(f, x))); continue
                d = f.defs[x]
                if d.op == "phi": st.extend(y for y, _ in d.raw[4])
                elif d.op == "select": st.extend(d.raw[5:7])
                else:
                    e = okey(self.addr(f, x))
                    rt = root(e)
                    if rt[0] == "v" and rt[1] == f.name and rt[2] != x and f.defs[rt[2]].op in ("phi", "select"):
                        for y in self.keys(f, rt[2]): out.add(rebase(e, rt, y))
                    elif rt[0] == "v" and d.op == "gep": st.append(d.raw[4])
                    else: out.add(e)
            self.kmemo[k] = tuple(x for x in out if x[0] not in ("i", "k"))
        return self.kmemo[k]

    def mset(self, f, v, M):
        return any(self.msec(k, M) for k in self.keys(f, v))

    def taintmem(self, f, v, M):
        M.update(self.keys(f, v))

    def idx_secret(self, f, v, T, seen=None):
        """the address v is computed from a secret index"""
        if not isinstance(v, int) or v < f.nargs: return False
        if v in T: return True
        return False

    def step(self, f, i, T, M, ret, leaks, depth):
        op = i.op; r = i.raw

        def lk(what): leaks.setdefault((f.name, i.line, what), (f, i, what))
        if op == "load":
            if self.sec(r[4], T): lk("memory address")
            if self.mset(f, r[4], M) and r[3] != "ptr": T.add(i.id)
        elif op == "store":
            if self.sec(r[5], T): lk("memory address")
            if self.sec(r[4], T): self.taintmem(f, r[5], M)
        elif op == "br":
            if self.sec(r[3], T): lk("branch")
        elif op == "switch":
            if self.sec(r[3], T): lk("branch")
        elif op == "phi":
            if any(self.sec(v, T) for v, _ in r[4]): T.add(i.id)
        elif op == "gep":
            if any(self.sec(v, T) for v in r[5]): T.add(i.id)
            elif self.sec(r[4], T): T.add(i.id)
        elif op == "select":
            if self.sec(r[4], T) or self.sec(r[5], T) or self.sec(r[6], T): T.add(i.id)
        elif op == "ret":
            if self.sec(r[3], T): ret = True
        elif op in ("call", "invoke"):
            self.call(f, i, T, M, leaks, depth, lk)
        elif op in ("alloca", "lpad", "unreachable", "resume"): pass
        elif op == "extractvalue":
            if self.sec(r[3], T): T.add(i.id)
        elif op == "cast":
            if self.sec(r[5], T): T.add(i.id)
        elif op == "x":
            if any(self.sec(v, T) for v in r[5:]): T.add(i.id)
        else:
            if op in ("udiv", "sdiv", "urem", "srem") and (self.sec(r[5], T)): lk("divisor")
            if self.sec(r[4], T) or self.sec(r[5], T): T.add(i.id)
        return ret

    def call(self, f, i, T, M, leaks, depth, lk):
        ts = self.p.callees(i)
        args = i.args
        n = ts[0] if ts and len(ts) == 1 else None
        g = self.p.funcs.get(n) if n else None
        if isinstance(i.callee, str) and i.callee.startswith("g:llvm."):
            nm = i.callee[2:]
            if nm.startswith(("llvm.memcpy", "llvm.memmove")):
                if self.mset(f, args[1], M): self.taintmem(f, args[0], M)
                if self.sec(args[2], T): lk("memory address")
            elif nm.startswith("llvm.memset"):
                if self.sec(args[1], T): self.taintmem(f, args[0], M)
            elif any(self.sec(a, T) for a in args) and i.id >= 0: T.add(i.id)
            return
        if n in VARTIME or (n and n.startswith(("memcmp", "strcmp"))):
            if any(self.mset(f, a, M) for a in args[:2]): lk("variable-time comparison " + n)
        if self.sec(i.callee, T): lk("branch")
        # standard containers: the address they compute, not the data
        if g is not None and (g.cls.startswith("std::") or not g.in_cex):
            e = None
            if i.id >= 0 and i.raw[3] in ("ptr", "i64", "i1") and not any(isinstance(a, int) and not self.isptr(f, a) for a in args): e = self.ex.val(f, i.id)
            if g.base_nm in ("operator[]", "at") and len(args) == 2: e = ("el",)
            if e is not None and e[0] in ("el", "up", "size", "cmp"):
                if any(self.sec(a, T) for a in args[1:]): T.add(i.id)   # secret index
                return
            if g.base_nm in ("operator==", "operator!=") and "vector" in g.dem:
                if any(self.mset(f, a, M) for a in args[:2]): lk("variable-time comparison " + g.base_nm)
            # everything else in the library: content and scalars flow from every argument to every writable one
            s = any(self.sec(a, T) for a in args) or any(self.contents(f, a, M) for a in args)
            if s:
                pts = dict(g.param_types())
                for k, a in enumerate(args):
                    t = pts.get(k, "")
                    if (t.endswith("&") or t.endswith("*") or (g.sret and k == 0)) and not t.startswith("const "): self.taintmem(f, a, M)
                if i.id >= 0 and i.raw[3] != "ptr" and g.base_nm not in ("size", "capacity", "empty"): T.add(i.id)
            return
        if g is not None and n not in self.opaque:
            vals = {k for k, a in enumerate(args) if self.sec(a, T)}
            mem = set(); maps = []
            for k, a in enumerate(args):
                if isinstance(a, int) or (isinstance(a, str) and a.startswith("g")):
                    for ad in self.keys(f, a):
                        maps.append((k, ad))
                        for m in M:
                            if within(m, ad): mem.add(rebase(m, ad, ("arg", k)))
                            elif within(ad, m): mem.add(("arg", k))
            if not vals and not mem: return
            if n in self.declassify: return
            rs, out = self.run(g, vals, mem, depth + 1)
            for m in out:
                rt = root(m)
                if rt[0] == "arg":
                    for k, ad in maps:
                        if rt == ("arg", k): M.add(rebase(m, ("arg", k), ad))
            if rs and i.id >= 0 and n not in self.ret_public: T.add(i.id)
            return
        # unknown or virtual: data flows through, no claim about the callee
        s = any(self.sec(a, T) for a in args) or any(self.contents(f, a, M) for a in args)
        if s:
            gs = [self.p.funcs[t] for t in (ts or ()) if t in self.p.funcs]
            self.boundary.add((f.short, gs[0].short if gs else str(ts or "?")))
            pts = dict(gs[0].param_types()) if gs else {}
            for k, a in enumerate(args):
                t = pts.get(k, "")
                if isinstance(a, int) and t and (t.endswith("&") or t.endswith("*")) and not t.startswith("const "): self.taintmem(f, a, M)
            if i.id >= 0 and i.raw[3] not in ("ptr", "i1"): T.add(i.id)

    def contents(self, f, a, M):
        if not isinstance(a, int): return False
        return any(self.msec(ad, M) or any(within(m, ad) for m in M) for ad in self.keys(f, a))


