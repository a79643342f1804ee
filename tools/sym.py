"""Eager path interpreter over the IR: values are computed when the instruction is reached, memory is a map from address
expressions to values. Branches fork unless the condition folds; exceptions raised by callees are not followed."""
import ir
from ir import I, add, root
from frontend import Broken


class Path:
    __slots__ = ("mem", "ev", "cond", "size", "data", "n")

    def __init__(self):
        self.mem = {}; self.ev = []; self.cond = {}; self.size = {}; self.data = {}; self.n = [0]

    def copy(self):
        q = Path()
        q.mem = dict(self.mem); q.ev = list(self.ev); q.cond = dict(self.cond); q.size = dict(self.size); q.data = dict(self.data); q.n = self.n
        return q

    def fresh(self, tag):
        self.n[0] += 1
        return ("fresh", tag, self.n[0])


def fold(e):
    """simplifies an expression whose parts became known"""
    if not isinstance(e, tuple) or not e or not isinstance(e[0], str): return e
    if e[0] in ("i", "g", "k", "loc", "arg", "T", "F", "fresh", "new", "v", "obj"): return e
    if e[0] == "lin":
        acc = I(e[1])
        for t, k in e[2]: acc = add(acc, ir.mul(I(k), fold(t)))
        return acc
    r = tuple(fold(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else (tuple(fold(y) if isinstance(y, tuple) else y for y in x) if isinstance(x, tuple) else x) for x in e)
    if r[0] == "mul" and len(r) == 3: return ir.mul(r[1], r[2])
    if r[0] in ("div", "lshr") and r[2][0] == "i":
        d = r[2][1] if r[0] == "div" else 1 << r[2][1]
        c, t = r[1], None
        if c[0] == "i": return I(c[1] // d)
        if c[0] == "lin" and c[1] % d == 0 and all(k % d == 0 for _, k in c[2]):
            acc = I(c[1] // d)
            for t, k in c[2]: acc = add(acc, ir.mul(I(k // d), t))
            return acc
        if r[0] == "lshr": return ("div", c, I(d))
    if r[0] == "cmp" and r[2][0] == "i" and r[3][0] == "i":
        c = ir.cmpc(r[1], r[2][1], r[3][1])
        if c is not None: return ("T",) if c else ("F",)
    if r[0] == "cmp" and r[1] in ("eq", "ne") and r[3] == I(0) and r[2][0] == "lin" and r[2][1] == 0 and len(r[2][2]) == 1 and r[2][2][0][0][0] == "cmp":
        return r[2][2][0][0] if r[1] == "ne" else ir.negate(r[2][2][0][0])
    if r[0] == "cmp" and r[2] == r[3]: return ("T",) if r[1] in ("eq", "ule", "uge", "sle", "sge") else ("F",)
    if r[0] == "not" and r[1] in (("T",), ("F",)): return ("F",) if r[1] == ("T",) else ("T",)
    if r[0] == "sel":
        if r[1] == ("T",): return r[2]
        if r[1] == ("F",): return r[3]
        if r[2] == r[3]: return r[2]
    if r[0] == "el" and r[1][0] == "el": return ("el", r[1][1], add(r[1][2], r[2]))
    return r


def subst(e, m):
    """replaces sub-expressions"""
    if not isinstance(e, tuple): return e
    if e in m: return m[e]
    if e and e[0] == "lin":
        acc = I(e[1])
        for t, k in e[2]: acc = add(acc, ir.mul(I(k), subst(t, m)))
        return acc
    return fold(tuple(subst(x, m) for x in e))


class Sym:
    MAXSTEPS = 20000
    MAXLOOP = 70
    MAXPATHS = 4096
    MAXDEPTH = 10
    forksel = False
    cut = 0          # drop paths that enter a block more often (0: a loop without an end is an error)
    coarse = ()      # operations whose result is not followed
    forks = 0        # drop paths that fork at one branch more often

    def __init__(self, prog, ex):
        self.p = prog; self.ex = ex; self.steps = 0; self.stack = []

    # hooks
    def call(self, P, f, i, ts, args): return None        # None: not handled; else list of (path, value)
    def inline(self, g, args, P): return False
    def load(self, P, a): return None
    def store(self, P, a, v, f, i): return False
    def decide(self, P, c): return None
    def havoc(self, P, i, args): pass
    def enter(self, P, f, bi, pred, env): pass
    def leave(self, P, f, v): pass

    def run(self, f, args, P=None, depth=0):
        """[(kind, path, value)], kind: ret, throw"""
        if P is None: P = Path()
        if f.name in self.stack or depth > self.MAXDEPTH: return [("ret", P, P.fresh("rec"))]
        self.stack.append(f.name)
        out = []
        work = [(0, -1, 0, P, {}, {})]
        while work:
            bi, pred, start, P, env, cnt = work.pop()
            self.steps += 1
            if self.steps > self.MAXSTEPS or len(work) > self.MAXPATHS: self.stack.pop(); raise Broken(f"path budget exceeded in {f.short}")
            blk = f.blocks[bi]
            if start == 0:
                cnt = dict(cnt); cnt[bi] = cnt.get(bi, 0) + 1
                if self.cut and cnt[bi] > self.cut: continue
                if cnt[bi] > self.MAXLOOP: self.stack.pop(); raise Broken(f"a loop of {f.short} does not end")
                new = {}
                for i in blk:
                    if i.op != "phi": break
                    for v, pb in i.raw[4]:
                        if pb == pred: new[i.id] = self.val(P, f, v, env, args)
                env.update(new)
                if self.enter(P, f, bi, pred, env) is False: continue
            stop = False
            for k in range(start, len(blk)):
                i = self.cur = blk[k]
                if i.op in ("phi", "lpad"): continue
                if i.op == "store":
                    a = self.val(P, f, i.raw[5], env, args); v = self.val(P, f, i.raw[4], env, args)
                    if not self.store(P, a, v, f, i): P.mem[a] = v
                elif i.op == "load":
                    env[i.id] = self.ld(P, self.val(P, f, i.raw[4], env, args))
                elif i.op in ("call", "invoke"):
                    if i.callee == "g:__cxa_throw":
                        out.append(("throw", P, i.args[1][2:] if isinstance(i.args[1], str) else None)); stop = True; break
                    ts = self.p.callees(i)
                    av = [self.val(P, f, a, env, args) for a in i.args]
                    r = self.call(P, f, i, ts, av)
                    if r is None and ts and len(ts) == 1 and ts[0] in self.p.funcs and self.p.funcs[ts[0]].blocks and self.inline(self.p.funcs[ts[0]], av, P):
                        r = []
                        for kind, q, v in self.run(self.p.funcs[ts[0]], av, P, depth + 1):
                            if kind == "ret": r.append((q, v))
                            else: out.append((kind, q, v))
                    if r is None:
                        self.havoc(P, i, av)
                        v = None
                        if i.id >= 0 and i.raw[3] != "void": v = self.opaque(P, f, i, ts, av)
                        r = [(P, v)]
                    if len(r) == 1:
                        P, v = r[0]
                        if i.id >= 0 and v is not None: env[i.id] = v
                    else:
                        for q, v in r:
                            e2 = dict(env)
                            if i.id >= 0 and v is not None: e2[i.id] = v
                            if i.op == "invoke": work.append((i.normal, bi, 0, q, e2, cnt))
                            else: work.append((bi, pred, k + 1, q, e2, cnt))
                        stop = True; break
                elif i.op == "select" and self.forksel:
                    c = self.val(P, f, i.raw[4], env, args)
                    if c[0] == "i": c = ("T",) if c[1] else ("F",)
                    d = self.truth(P, c)
                    if d is None:
                        q = P.copy(); q.cond[c] = False; P.cond[c] = True
                        e2 = dict(env); e2[i.id] = self.val(q, f, i.raw[6], env, args)
                        work.append((bi, pred, k + 1, q, e2, cnt)); d = True
                    env[i.id] = self.val(P, f, i.raw[5 if d else 6], env, args)
                elif i.op == "extractvalue": env[i.id] = ("xv", self.val(P, f, i.raw[3], env, args), i.raw[4])
                elif i.id >= 0 and i.op not in ("br", "switch", "ret"):
                    if i.op in self.coarse and i.raw[3] != "i1": env[i.id] = P.fresh(i.op); continue
                    v = fold(self.ex.inst(f, i, Env(self, P, f, env, args), args, 0))
                    # elements of local arrays have one name, whether the index is a constant or became one
                    if i.op == "gep" and v[0] == "el" and v[1][0] in ("loc", "off") and v[2][0] == "i" and root(v[1])[0] == "loc" and len(i.raw) > 7:
                        b, n = (v[1], 0) if v[1][0] == "loc" else (v[1][1], v[1][2])
                        n += v[2][1] * max(1, i.raw[7]); v = ("off", b, n) if n else b
                    env[i.id] = v
            if stop: continue
            t = blk[-1]
            if t.op == "ret": out.append(("ret", P, self.val(P, f, t.raw[3], env, args) if t.raw[3] is not None else None))
            elif t.op == "br":
                if t.raw[3] is None: work.append((t.raw[4][0], bi, 0, P, env, cnt)); continue
                c = self.ex.val(f, t.raw[3], Env(self, P, f, env, args), args); c = fold(c)
                if c[0] == "i": c = ("T",) if c[1] else ("F",)
                d = self.truth(P, c)
                if d is None and self.forks:
                    cnt = dict(cnt); cnt[("f", bi)] = cnt.get(("f", bi), 0) + 1
                    if cnt[("f", bi)] > self.forks: continue
                for tr, nb in ((False, t.raw[4][1]), (True, t.raw[4][0])):
                    if d is None or d == tr:
                        q = P.copy() if d is None else P
                        if d is None: q.cond[c] = tr
                        work.append((nb, bi, 0, q, dict(env) if d is None else env, cnt))
            elif t.op == "switch":
                c = self.val(P, f, t.raw[3], env, args)
                if c[0] == "i":
                    nb = t.raw[4]
                    for v, b in t.raw[5]:
                        if v == c[1]: nb = b
                    work.append((nb, bi, 0, P, env, cnt))
                else:
                    done = set()
                    for v, b in t.raw[5]:
                        q = P.copy(); q.cond[("cmp", "eq", c, I(v))] = True
                        work.append((b, bi, 0, q, dict(env), cnt))
                    q = P.copy()
                    for v, b in t.raw[5]: q.cond[("cmp", "eq", c, I(v))] = False
                    work.append((t.raw[4], bi, 0, q, dict(env), cnt))
            elif t.op == "invoke": work.append((t.normal, bi, 0, P, env, cnt))
        self.stack.pop()
        return out

    def truth(self, P, c):
        if c == ("T",): return True
        if c == ("F",): return False
        if c[0] == "not":
            d = self.truth(P, c[1]); return None if d is None else not d
        if c in P.cond: return P.cond[c]
        n = ir.negate(c)
        if n in P.cond: return not P.cond[n]
        d = self.decide(P, c)
        return d

    def ld(self, P, a):
        v = self.load(P, a)
        if v is not None: return v
        if a in P.mem: return P.mem[a]
        return ("ld", a)

    def val(self, P, f, v, env, args):
        if isinstance(v, int):
            if v < f.nargs: return args[v]
            if v in env: return env[v]
        return fold(self.ex.val(f, v, Env(self, P, f, env, args), args))

    def opaque(self, P, f, i, ts, av):
        g = self.p.funcs.get(ts[0]) if ts and len(ts) == 1 else None
        if g is not None: return ("c", g.name, tuple(av), "bool" if i.raw[3] == "i1" else "")
        if not isinstance(i.callee, str) and ts: return ("m", self.p.vname(i), tuple(av), "bool" if i.raw[3] == "i1" else "")
        return P.fresh(i.raw[3])


class Env(dict):
    """environment handed to Exprs: everything reached so far is bound"""
    def __init__(self, s, P, f, env, args):
        super().__init__(env)


# ------------------------------------------------------------------ facts of a path
FLIP = {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "eq": "eq", "ne": "ne"}


def known(P, m=None):
    """linear expressions known not to be negative on a path (sizes do not wrap)"""
    out = []
    for c, t in P.cond.items():
        if m: c = subst(c, m)
        while c[0] == "not": c, t = c[1], not t
        if c[0] != "cmp": continue
        op, a, b = c[1], c[2], c[3]
        k = {"ult": "<", "slt": "<", "ule": "<=", "sle": "<=", "ugt": ">", "sgt": ">", "uge": ">=", "sge": ">=", "eq": "==", "ne": "!="}[op]
        if not t: k = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[k]
        if k in ("<", "<="): a, b, k = b, a, {"<": ">", "<=": ">="}[k]
        d = add(a, b, -1)
        if k == ">": out.append(add(d, I(-1)))
        elif k == ">=": out.append(d)
        elif k == "==": out += [d, ir.mul(I(-1), d)]
        elif k == "!=" and b == I(0): out.append(add(a, I(-1)))
    return out


def nonneg(d):
    """a sum of quantities none of which is negative"""
    if d[0] == "i": return d[1] >= 0
    if d[0] == "lin": return d[1] >= 0 and all(k >= 0 for _, k in d[2])
    return True


def entails(P, e, m=None, extra=()):
    """e >= 0 follows from one or two of the path's facts"""
    if nonneg(e): return True
    ks = known(P, m) + list(extra)
    if any(nonneg(add(e, k, -1)) for k in ks): return True
    return any(nonneg(add(add(e, a, -1), b, -1)) for n, a in enumerate(ks) for b in ks[:n])


class VecSym(Sym):
    """with std::vector sizes and addresses, unique_ptr and iterators"""
    def vsize(self, P, v): return P.size.get(v, ("size", v))

    def iterval(self, P, a):
        if a[0] == "el": return a
        v = P.mem.get(a)
        return v if v is not None and v[0] == "el" else None

    def std(self, P, f, i, g, args):
        """None when it is no modelled library function, else the result list"""
        nm = g.base_nm; c = g.cls
        if c.startswith("std::unique_ptr") or c.startswith("std::__uniq_ptr"):
            if nm in ("operator->", "get", "operator*"): return [(P, P.mem.get(("up", args[0]), ("up", args[0])))]
            if nm == "operator bool": return [(P, fold(("cmp", "ne", P.mem.get(("up", args[0]), ("up", args[0])), I(0))))]
            if nm in ("unique_ptr", "reset"):
                if len(args) > 1: P.mem[("up", args[0])] = args[1]
                return [(P, None)]
            if nm == "~unique_ptr": return [(P, None)]
            return None
        if nm in ("operator==", "operator!=") and "unique_ptr" in "".join(g.sty[1:2]):
            return [(P, ("cmp", "ne" if nm == "operator!=" else "eq", P.mem.get(("up", args[0]), ("up", args[0])), I(0)))]
        if c.startswith("std::vector"):
            if nm == "vector":
                v = args[0]; t = g.sty[2] if len(g.sty) > 2 else ""
                if len(args) == 1 or (len(args) == 2 and "allocator" in t and not t.startswith(("const std::vector", "std::vector")) and "unsigned long" not in t): P.size[v] = I(0)
                elif len(args) >= 3 and self.iterval(P, args[1]) is not None and self.iterval(P, args[2]) is not None:
                    a, b = self.iterval(P, args[1]), self.iterval(P, args[2]); P.size[v] = add(b[2], a[2], -1); self.vcopy(P, a[1], a[2], v, I(0), P.size[v], f, i)
                elif "vector" in t: P.size[v] = self.vsize(P, args[1]); self.vcopy(P, args[1], I(0), v, I(0), P.size[v], f, i)
                else: P.size[v] = args[1]
                self.vnew(P, v, f, i)
                return [(P, None)]
            if nm == "operator=": P.size[args[0]] = self.vsize(P, args[1]); self.vcopy(P, args[1], I(0), args[0], I(0), P.size[args[0]], f, i); return [(P, args[0])]
            if nm == "resize": P.size[args[0]] = args[1]; return [(P, None)]
            if nm == "clear": P.size[args[0]] = I(0); return [(P, None)]
            if nm == "assign" and len(args) == 3 and self.iterval(P, args[1]) is not None:
                a, b = self.iterval(P, args[1]), self.iterval(P, args[2])
                P.size[args[0]] = add(b[2], a[2], -1); self.vcopy(P, a[1], a[2], args[0], I(0), P.size[args[0]], f, i); return [(P, None)]
            if nm == "size": return [(P, self.vsize(P, args[0]))]
            if nm == "empty": return [(P, fold(("cmp", "eq", self.vsize(P, args[0]), I(0))))]
            if nm in ("operator[]", "at"): return [(P, ("el", args[0], args[1]))]
            if nm in ("data", "begin", "cbegin", "front"): return [(P, ("el", args[0], I(0)))]
            if nm in ("end", "cend"): return [(P, ("el", args[0], self.vsize(P, args[0])))]
            if nm == "~vector": return [(P, None)]
            return None
        if c.startswith("__gnu_cxx::__normal_iterator"):
            a = self.iterval(P, args[0])
            if nm in ("operator+", "operator-") and a is not None and len(args) == 2:
                n = args[1] if args[1][0] != "loc" else P.mem.get(args[1], ("ld", args[1]))
                return [(P, ("el", a[1], add(a[2], n, 1 if nm == "operator+" else -1)))]
            return None
        if c == "std" and nm in ("fill", "fill_n") and len(args) == 3 and self.iterval(P, args[0]) is not None:
            a = self.iterval(P, args[0]); b = self.iterval(P, args[1]) if nm == "fill" else None
            if nm == "fill" and (b is None or b[1] != a[1]): return None
            n = args[1] if b is None else add(b[2], a[2], -1)
            self.vfill(P, a[1], a[2], n, f, i); return [(P, ("el", a[1], add(a[2], n)))]
        if c == "std" and nm in ("copy", "copy_n", "move") and len(args) == 3:
            a, d = self.iterval(P, args[0]), self.iterval(P, args[2])
            if a is None or d is None: return None
            if nm == "copy_n": n = args[1]
            else:
                b = self.iterval(P, args[1])
                if b is None or b[1] != a[1]: return None
                n = add(b[2], a[2], -1)
            self.vcopy(P, a[1], a[2], d[1], d[2], n, f, i)
            return [(P, ("el", d[1], add(d[2], n)))]
        if c.startswith("std::") and nm in ("forward", "move", "addressof", "__addressof"): return [(P, args[0])]
        if not c and nm in ("move", "forward") and len(args) == 1: return [(P, args[0])]
        return None

    def vnew(self, P, v, f, i): pass
    def vcopy(self, P, src, soff, dst, doff, n, f, i): pass
    def vfill(self, P, v, off, n, f, i): pass


class LoopSym(VecSym):
    """loops are walked once: at a header the loop's variables become unknowns, a path that comes back to the header ends there.
    turns: [(function, header, path, {phi: (initial, unknown, next)})]"""
    def __init__(self, prog, ex):
        super().__init__(prog, ex); self.turns = []

    def summarize(self, P, f, l): return not l["bt"].isdigit()
    def forget(self, P, f, l): P.mem = {}

    def enter(self, P, f, bi, pred, env):
        l = next((l for l in f.loops if l["h"] == bi), None)
        if l is None or not self.summarize(P, f, l): return
        key = ("loop", f.name, bi)
        phis = [i.id for i in f.blocks[bi] if i.op == "phi" and i.id in env]
        if pred in l["bl"]:
            if key in P.data:
                P.data = dict(P.data); init = P.data[key]
                self.turns.append((f, bi, P, {k: (init[k], ("ind", f.name, k), env[k]) for k in phis if k in init}))
                return False
            return
        P.data[key] = {k: env[k] for k in phis}
        P.data[("order",)] = P.data.get(("order",), ()) + (key,)
        for k in phis: env[k] = ("ind", f.name, k)
        self.forget(P, f, l)
