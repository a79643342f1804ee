"""Decides the arithmetic of multi-digit counters: what one step of the loop does to a digit and its carry, for all digits."""
import itertools, re
import ir, sym
from ir import I, add, show, root


class Unknown(Exception): pass


class Steps:
    """paths through some blocks of f; numbers of at most `narrow` bits become python expressions over named digits, everything else stays an index expression"""

    def __init__(self, p, ex, f, narrow=None):
        self.p = p; self.ex = ex; self.f = f; self.narrow = narrow; self.vars = {}

    def width(self, ty):
        if ty == "i1": return 1
        n = int(ty[1:])
        if self.narrow is None: return n
        return min(n, self.narrow) if n > 1 else 1

    def var(self, key, w):
        if key not in self.vars: self.vars[key] = f"x{len(self.vars)}"
        return (self.vars[key], w)

    def num(self, v, env, w=None):
        if isinstance(v, int): return env.get(v)
        if isinstance(v, str) and v.startswith("i:"):
            return ("const", int(v[2:])) if w is None else (str(int(v[2:]) & ((1 << w) - 1)), w)
        return None

    def pair(self, a, b, env):
        x, y = self.num(a, env), self.num(b, env)
        if x and x[0] == "const" and y and y[0] == "const": return None
        if x and x[0] == "const" and y: x = self.num(a, env, y[1])
        if y and y[0] == "const" and x: y = self.num(b, env, x[1])
        if not x or not y or x[0] == "const" or y[0] == "const": return None
        w = max(x[1], y[1])
        return x[0], y[0], w

    def run(self, start, pred, env, inside, ends, data):
        """[(preds, index conditions, end, pred, env, mem)]; data(addr) names the digit an address holds, None for others"""
        f = self.f; out = []; work = [(start, pred, dict(env), [], [], {}, 0)]
        while work:
            bi, pb, env, ps, ics, mem, n = work.pop()
            if n > 60 or len(work) > 500: raise Unknown("too many paths")
            if n and (bi in ends or bi not in inside): out.append((ps, ics, bi, pb, env, mem)); continue
            new = {}
            for i in f.blocks[bi]:
                if i.op != "phi": break
                for v, b in i.raw[4]:
                    if b == pb and n:
                        x = self.num(v, env, self.width(i.raw[3]) if i.raw[3][0] == "i" else None)
                        new[i.id] = x
            for k, v in new.items():
                if v is None: env.pop(k, None)
                else: env[k] = v
            for i in f.blocks[bi]:
                if i.op in ("phi", "lpad", "br", "switch", "ret", "gep", "alloca"): continue
                if i.op == "load":
                    if i.raw[3][0] != "i": continue
                    a = self.ex.val(f, i.raw[4]); k = data(a, env)
                    if k is not None: env[i.id] = mem.get(k) or self.var(k, self.width(i.raw[3]))
                elif i.op == "store":
                    a = self.ex.val(f, i.raw[5]); k = data(a, env)
                    if k is not None:
                        v = self.num(i.raw[4], env)
                        if v and v[0] == "const": v = (str(v[1] & 255), 8)
                        if v is None: raise Unknown(f"{i.where}: a digit is set to {show(self.ex.val(f, i.raw[4]))}")
                        mem = dict(mem); mem[k] = v; mem[("n",)] = mem.get(("n",), 0) + 1
                elif i.is_call:
                    g = self.p.funcs.get((self.p.callees(i) or [None])[0])
                    nm = g.base_nm if g is not None else ""
                    if nm == "Copy" and g.cls.endswith("MemoryTools"):
                        mem = dict(mem); self.copied(self.ex.val(f, i.args[0]), self.ex.val(f, i.args[2]), mem)
                elif i.op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr"):
                    t = self.pair(i.raw[4], i.raw[5], env)
                    if t is None: continue
                    a, b, w = t; m = (1 << w) - 1
                    if self.narrow and i.op not in ("add", "sub", "or", "and", "xor"): raise Unknown(f"{i.where}: {i.op}")
                    o = {"add": "+", "sub": "-", "mul": "*", "and": "&", "or": "|", "xor": "^", "shl": "<<", "lshr": ">>"}[i.op]
                    env[i.id] = (f"(({a}{o}{b})&{m})", w)
                elif i.op == "icmp":
                    t = self.pair(i.raw[4], i.raw[5], env)
                    if t is None: continue
                    a, b, w = t; pr = i.raw[3]
                    if pr[0] == "s":
                        h = 1 << (w - 1); a = f"(({a}^{h})-{h})"; b = f"(({b}^{h})-{h})"
                    o = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[pr if pr in ("eq", "ne") else pr[1:]]
                    env[i.id] = (f"int({a}{o}{b})", 1)
                elif i.op == "cast":
                    x = self.num(i.raw[4 if not isinstance(i.raw[4], str) or i.raw[4][:2] == "i:" else 5], env) if False else self.castsrc(i, env)
                    if x is None: continue
                    kind = i.raw[3]; w = self.width(i.raw[4])
                    if kind == "trunc": env[i.id] = (f"({x[0]}&{(1 << w) - 1})", w)
                    elif kind == "zext": env[i.id] = (x[0], w)
                    elif kind == "sext":
                        h = 1 << (x[1] - 1); env[i.id] = (f"((({x[0]}^{h})-{h})&{(1 << w) - 1})", w)
                elif i.op == "select":
                    c = self.num(i.raw[4], env)
                    if c is None: continue
                    t = self.pair(i.raw[5], i.raw[6], env)
                    if t is None:
                        w = self.width(i.raw[3]) if i.raw[3][0] == "i" else None
                        a, b = self.num(i.raw[5], env, w), self.num(i.raw[6], env, w)
                        if w is None or a is None or b is None: continue
                        t = (a[0], b[0], w)
                    env[i.id] = (f"({t[0]} if {c[0]} else {t[1]})", t[2])
            t = f.blocks[bi][-1]
            if t.op == "ret": out.append((ps, ics, "ret", pb, env, mem)); continue
            if t.op == "br" and t.raw[3] is not None:
                c = self.num(t.raw[3], env)
                for tr, nb in ((True, t.raw[4][0]), (False, t.raw[4][1])):
                    if c is not None and c[0] != "const": work.append((nb, bi, dict(env), ps + [(c[0], tr)], ics, mem, n + 1))
                    else:
                        e = self.ex.val(f, t.raw[3])
                        work.append((nb, bi, dict(env), ps, ics + [e if tr else ir.negate(e)], mem, n + 1))
            elif t.op == "br": work.append((t.raw[4][0], bi, env, ps, ics, mem, n + 1))
            elif t.op == "invoke": work.append((t.normal, bi, env, ps, ics, mem, n + 1))
            else: raise Unknown(f"{t.where}: {t.op}")
        return out

    def castsrc(self, i, env):
        return self.num(i.raw[5], env)

    def copied(self, src, dst, mem): pass


def table(conds, src, names, sizes):
    """all values of the named digits for which the conditions hold: (digits, results)"""
    pred = " and ".join(f"(({c}) != 0) == {tr}" for c, tr in conds) or "True"
    code = f"def g():\n"
    ind = " "
    for n, s in zip(names, sizes): code += f"{ind}for {n} in range({s}):\n"; ind += " "
    code += f"{ind}if {pred}: yield ({', '.join(names)},), ({', '.join(src)},)\n" if names else f"{ind}yield (), ({', '.join(src)},)\n"
    ns = {}
    exec(code, ns)
    return ns["g"]()


MEMO = {}


def check_words(p, ex, f, inc):
    """a two word little endian integer and an addend: None when right, else what is wrong"""
    ptr = [k for k in range(f.nargs)]
    out = 0 if len(f.sty) - 1 == (1 if inc else 2) else 1
    for alias in ((False,) if out == 0 else (False, True)):
        s = Steps(p, ex, f, narrow=4)

        def data(a, env):
            if a[0] == "off": return None
            if a[0] == "el" and a[1][0] == "arg" and a[2][0] == "i": return ("w", out if alias and a[1][1] == 0 else a[1][1], a[2][1])
            return None

        def copied(src, dst, mem):
            if src[0] != "arg" or dst[0] != "arg": raise Unknown("copy")
            for k in (0, 1):
                a = ("w", out if alias else src[1], k)
                mem[("w", dst[1], k)] = mem.get(a) or s.var(a, 4)
        s.copied = copied
        env = {} if inc else {f.nargs - 1: s.var(("L",), 4)}
        base = 0 if out and not alias else out
        for ps, ics, end, pb, e2, mem in s.run(0, -1, env, set(range(len(f.blocks))), (), data):
            if ics: raise Unknown(f"depends on {show(ics[0])}")
            a0, a1 = s.var(("w", base, 0), 4), s.var(("w", base, 1), 4)
            if not out: src = [mem.get(("w", 0, k)) or (a0, a1)[k] for k in (0, 1)]
            else: src = [mem.get(("w", out, k)) for k in (0, 1)]
            if None in src: return "leaves a word of its output unset"
            names = list(s.vars.values()); L = s.vars.get(("L",))
            for vs, (r0, r1) in table(ps, [src[0][0], src[1][0]], names, [16] * len(names)):
                d = dict(zip(names, vs))
                want = (d[a0[0]] + 16 * d[a1[0]] + (1 if inc else d[L])) % 256
                if r0 + 16 * r1 != want: return "does not add with carry into the second word" + (" when input and output are the same array" if alias else "")
    return None


def check_bytes(p, ex, f, inc, big):
    """None when the loop over the bytes adds with carry over the whole array, else what is wrong"""
    outk = max(k for k, t in f.param_types_static() if "&" in t and not t.startswith("const"))
    V = lambda i: ("v", f.name, i)
    main = [l for l in f.loops if any(i.op == "store" and root(ex.val(f, i.raw[5])) == ("arg", outk) for b in l["bl"] for i in f.blocks[b])]
    if len(main) != 1: raise Unknown(f"{len(main)} loops over the output")
    l = main[0]; h = l["h"]; body = set(l["bl"])
    phis = [i for i in f.blocks[h] if i.op == "phi"]
    entry = [b for b in f.preds[h] if b not in body]
    if len(entry) != 1: raise Unknown("loop entry")
    init = lambda i: next(ex.val(f, v) for v, b in i.raw[4] if b == entry[0])
    nxt = lambda i: [ex.val(f, v) for v, b in i.raw[4] if b in body]
    ixs = [i for i in phis if all(add(n, V(i.id), -1) in (I(1), I(-1)) for n in nxt(i)) and i.raw[3] == "i64"]
    car = [i for i in phis if i not in ixs]
    if len(ixs) != 1 or len(car) > 1 or inc and car: raise Unknown("loop variables")
    ix = ixs[0]; step = add(nxt(ix)[0], V(ix.id), -1)[1]
    s = Steps(p, ex, f)
    seen = {"out": set(), "src": set()}

    def data(a, env):
        if a[0] == "el" and a[1] == ("arg", outk): seen["out"].add(a[2]); return ("X",)
        if a[0] == "el" and a[1][0] == "loc": seen["src"].add(a[2]); return ("S",)
        return None
    env = {car[0].id: s.var(("c",), 1)} if car else {}
    if car:
        w = int(car[0].raw[3][1:]); env[car[0].id] = (s.vars[("c",)], w)
        if init(car[0]) != I(0): return f"starts with the carry {show(init(car[0]))}"
    paths = s.run(h, entry[0], env, body, {h}, data)
    X = s.var(("X",), 8)[0]; S = s.vars.get(("S",)); c = s.vars.get(("c",))
    stored = False
    for ps, ics, end, pb, e2, mem in paths:
        x2 = mem.get(("X",))
        if x2 is None:
            if end == h: return "leaves a byte out"
            if ps: return "stops before a byte was increased"
            continue
        stored = True
        if mem.get(("n",)) != 1: return "stores a byte more than once"
        names = [n for n in (X, S, c) if n]; sizes = [{X: 256, S: 256, c: 2}[n] for n in names]
        usesS = S and (S in x2[0] or any(S in q for q, _ in ps))
        if not usesS and S: sizes[names.index(S)] = 1
        co = None
        if car and end == h:
            v = next(v for v, b in car[0].raw[4] if b == pb); co = s.num(v, e2, 8)
            if co is None: raise Unknown("carry")
        key = (tuple(ps), x2, co, tuple(names), tuple(sizes), inc, end == h)
        if key not in MEMO:
            bad = None
            for vs, r in table(ps, [x2[0]] + ([co[0]] if co else []), names, sizes):
                d = dict(zip(names, vs)); t = d[X] + (1 if inc else (d[S] if S else 0) + (d[c] if c else 0))
                if r[0] != t & 255: bad = f"turns the byte {d[X]}" + (f" plus {d.get(S, 0)} and carry {d.get(c, 0)}" if not inc else "") + f" into {r[0]}"; break
                if inc and end == h and t < 256: bad = "goes on to the next byte without a carry"; break
                if inc and end != h and t > 255 and not ics: bad = "stops although the byte overflowed"; break
                if not inc and co and r[1] != t >> 8: bad = f"computes the carry {r[1]} from {d[X]} + {d.get(S, 0)} + {d.get(c, 0)}"; break
            MEMO[key] = bad
        if MEMO[key]: return MEMO[key]
        if not inc and not car: return "has no carry"
        if not inc and end != h and ps: return "stops early"
    if not stored: raise Unknown("no digit is stored")
    # which bytes, in which order
    if len(seen["out"]) != 1: return f"uses different bytes in one step: {[show(x) for x in seen['out']]}"
    at = next(iter(seen["out"])); m = {V(ix.id): init(ix)}; m1 = {V(ix.id): add(init(ix), I(step))}
    first = sym.subst(at, m)
    if (step == -1) != big: return f"runs from the {'most' if big else 'least' if step == 1 and not big else 'most'} significant byte"
    for x in seen["src"]:
        if sym.subst(x, m) != I(0) or sym.subst(x, m1) != I(1): return f"adds byte {show(sym.subst(x, m))} of the value first"
    # the range: bounds compared with the index
    bnd = set()
    for ps, ics, end, pb, e2, mem in paths:
        if end == h: continue
        for e in ics:
            while e[0] == "not": e = ir.negate(e[1])
            if e[0] == "cmp":
                a, b = e[2], e[3]
                if ir.mentions(b, lambda y: y == V(ix.id)): a, b = b, a
                if ir.mentions(a, lambda y: y == V(ix.id)) and not ir.mentions(b, lambda y: y[0] == "v"):
                    # value of the index at which the loop is left, as a byte position past the range
                    k = add(a, V(ix.id), -1)
                    if k[0] == "i": bnd.add((e[1], b, k[1], mem.get(("X",)) is not None))
    ok = False
    for op, b, k, after in bnd:
        # last position touched: before the test when the test follows the store, else one step earlier
        if op not in ("eq", "uge", "ule", "sge", "sle"): continue
        phi = add(b, I(-k))                                 # value of the phi when the test ends the loop
        last = sym.subst(at, {V(ix.id): phi})
        if not after: last = add(last, I(-step))
        lo, hi = (last, first) if big else (first, last)
        n = add(add(hi, lo, -1), I(1))
        if n[0] in ("size", "arg") and (lo == I(0) or lo[0] == "arg"): ok = True
    if not ok: return f"does not run over the whole counter: starts at {show(first)}, bounds {[(o, show(b)) for o, b, _, _ in bnd]}"
    if not inc:
        loc = {root(ex.val(f, i.raw[5])) for i in f.insts if i.op == "store" and root(ex.val(f, i.raw[5]))[0] == "loc"}
        for i in f.insts:
            if i.op != "store": continue
            a = ex.val(f, i.raw[5])
            if a[0] == "el" and a[1][0] == "loc" and a[2][0] != "i":
                v = ex.val(f, i.raw[4])
                if v != ("lshr", ("arg", f.nargs - 1), ir.mul(a[2], I(8))): return f"splits the value as {show(v)}"
    return None
