"""Exact bit-level data flow.  Sizes and positions are linear expressions; data values are tuples of bits, every bit the canonical
boolean function (an ordered decision diagram) of the bits the function was given.  Nothing is executed and no path is split:
a branch whose condition is not settled by the sizes given ends the analysis (Open)."""
import re
from ir import I, add, mul, is_int


class Open(Exception):
    """the analysis cannot follow the code here"""


class BDD:
    def __init__(self):
        self.nodes = [None, None]; self.uniq = {}; self.memo = {}; self.limit = 2000000
    def mk(self, v, lo, hi):
        if lo == hi: return lo
        k = (v, lo, hi); n = self.uniq.get(k)
        if n is None:
            if len(self.nodes) > self.limit: raise Open("a value depends on too much")
            n = self.uniq[k] = len(self.nodes); self.nodes.append(k)
        return n
    def var(self, v): return self.mk(v, 0, 1)
    def ite(self, f, g, h):
        if f == 1: return g
        if f == 0: return h
        if g == h: return g
        if g == 1 and h == 0: return f
        k = (f, g, h); r = self.memo.get(k)
        if r is not None: return r
        N = self.nodes
        v = min(N[x][0] for x in k if x > 1)
        a = [(N[x][1], N[x][2]) if x > 1 and N[x][0] == v else (x, x) for x in k]
        r = self.mk(v, self.ite(a[0][0], a[1][0], a[2][0]), self.ite(a[0][1], a[1][1], a[2][1]))
        self.memo[k] = r
        return r
    def inv(self, f): return self.ite(f, 0, 1)
    def conj(self, f, g):
        if f == 0 or g == 0: return 0
        if f == 1: return g
        if g == 1: return f
        return self.ite(f, g, 0) if f < g else self.ite(g, f, 0)
    def disj(self, f, g):
        if f == 1 or g == 1: return 1
        if f == 0: return g
        if g == 0: return f
        return self.ite(f, 1, g) if f < g else self.ite(g, 1, f)
    def xor(self, f, g):
        if f == 0: return g
        if g == 0: return f
        if f > g: f, g = g, f
        return self.ite(f, self.inv(g), g)
    def support(self, f):
        out = set(); todo = [f]; seen = set()
        while todo:
            x = todo.pop()
            if x < 2 or x in seen: continue
            seen.add(x); v, lo, hi = self.nodes[x]; out.add(v); todo += [lo, hi]
        return out
    def restrict(self, f, m):
        """with the variables in m fixed to 0 / 1 (or another function)"""
        memo = {}
        def go(x):
            if x < 2: return x
            if x in memo: return memo[x]
            v, lo, hi = self.nodes[x]; a, b = go(lo), go(hi)
            memo[x] = self.ite(m.get(v, self.var(v)), b, a)
            return memo[x]
        return go(f)


def width(ty):
    m = re.fullmatch(r"i(\d+)", ty)
    if m: return int(m.group(1))
    if ty == "ptr": return 64
    m = re.fullmatch(r"<(\d+) x i(\d+)>", ty)
    if m: return int(m.group(1)) * int(m.group(2))
    m = re.fullmatch(r"\[(\d+) x (.*)\]", ty)
    if m: return int(m.group(1)) * width(m.group(2))
    raise Open(f"a value of type {ty}")


def lane(ty):
    m = re.fullmatch(r"<(\d+) x i(\d+)>", ty)
    return int(m.group(2)) if m else width(ty)


def split(e):
    """symbolic part and constant of a position"""
    if e[0] == "i": return (), e[1]
    if e[0] == "lin": return e[2], e[1]
    return ((e, 1),), 0


class Bits:
    steps = 400000

    def __init__(self, prog, depth=24):
        self.p = prog; self.b = BDD(); self.mem = {}; self.depth = depth; self.n = 0; self.left = self.steps; self.vectors = {}; self.log = []; self.called = set(); self.forks = 200; self.pc = 1

    # --- memory
    def fresh(self, nm): self.n += 1; return (nm, self.n)
    def cell(self, rg, off):
        s, c = split(off)
        return self.mem.setdefault((rg, s), {}), s, c

    def init(self, rg, s, c):
        """a byte the function was given"""
        if rg[0] in ("alloca", "heap"): return ("undef",)
        if rg[0] == "glob": return self.gbyte(rg[1], s, c)
        return tuple(self.b.var((8 * c + k, str(rg), str(s))) for k in range(8))

    def gbytes(self, nm):
        g = self.p.globals.get(nm)
        if g is None or not g.get("c") or "init" not in g: return None
        c = g.get("_bytes")
        if c is None:
            def flat(x, ty):
                m = re.match(r"\[(\d+) x (.*)\]$", ty)
                if m:
                    w = m.group(2)
                    if isinstance(x, str) and x.startswith("s:"): return [ord(ch) for ch in x[2:]]
                    if x == "zero": return [0] * (int(m.group(1)) * (width(w) // 8))
                    return [y for e in x for y in flat(e, w)]
                if not isinstance(x, int): 
                    if isinstance(x, str) and x.startswith("i:"): x = int(x[2:])
                    elif isinstance(x, str) and re.fullmatch(r"-?\d+", x): x = int(x)
                    else: raise Open(f"the table {nm}")
                n = max(width(ty) // 8, 1)
                return [(x >> (8 * k)) & 255 for k in range(n)]
            try: c = flat(g["init"], g["ty"])
            except (Open, TypeError): c = []
            g["_bytes"] = c
        return c

    def gbyte(self, nm, s, c):
        t = self.gbytes(nm)
        if not t or s or not 0 <= c < len(t): raise Open(f"the global {nm}")
        return tuple((t[c] >> k) & 1 for k in range(8))

    def store(self, p, v, ty, i=None):
        if p[0] != "p": raise Open("a store through an unknown pointer")
        m, s, c = self.cell(p[1], p[2])
        if p[1][0] == "glob": raise Open("a store to a global")
        w = max(width(ty), 8)
        self.log.append((p[1], s, c, w // 8, i))
        if v[0] == "p": m[c] = ("P", v, 64); [m.__setitem__(c + k, ("Q",)) for k in range(1, 8)]; return
        if v[0] not in ("b", "i"): m[c] = ("P", v, w); [m.__setitem__(c + k, ("Q",)) for k in range(1, w // 8)]; return
        bs = self.tobits(v, w if width(ty) >= 8 else width(ty))
        bs = tuple(bs) + (0,) * (w - len(bs))
        for k in range(w // 8): m[c + k] = bs[8 * k:8 * k + 8]

    def bytes(self, rg, off, n):
        m, s, c = self.cell(rg, off); out = []
        for k in range(n):
            x = m.get(c + k)
            out.append(self.init(rg, s, c + k) if x is None else x)
        return out

    def load(self, p, ty):
        if p[0] != "p": raise Open("a load through an unknown pointer")
        m, s, c = self.cell(p[1], p[2]); w = max(width(ty), 8)
        x = m.get(c)
        if x is not None and x[0] == "P":
            if x[2] != w: raise Open("part of a stored quantity is read")
            return x[1]
        if ty == "ptr" and x is None and p[1][0] not in ("alloca", "heap"): return self.given(p[1], s, c)
        bs = []
        for y in self.bytes(p[1], p[2], w // 8):
            if y[0] in ("P", "Q"): raise Open("part of a stored quantity is read")
            if y == ("undef",): y = tuple(self.b.var((k, str(("undef",) + self.fresh("u")), "")) for k in range(8))
            bs += list(y)
        return self.norm(("b", tuple(bs[:width(ty)])), ty)

    def given(self, rg, s, c):
        """a pointer held by an object the function was given: the three of a std::vector, or the start of something else"""
        if rg in self.vectors and not s and c in (0, 8, 16): return ("p", ("data", rg), I(0) if c == 0 else self.vectors[rg])
        return ("p", ("at", rg, s, c), I(0))

    def vector(self, rg, nbytes): self.vectors[rg] = nbytes

    # --- values
    def norm(self, v, ty):
        if v[0] == "b" and ty[0] == "i" and all(x < 2 for x in v[1]): return I(sum(x << k for k, x in enumerate(v[1])))
        return v

    def tobits(self, v, w):
        if v[0] == "b":
            if len(v[1]) != w: raise Open("a value of another width")
            return v[1]
        if v[0] == "i": return tuple((v[1] >> k) & 1 for k in range(w))
        raise Open("a size or position used as data")

    def const(self, s, ty):
        if s.startswith("i:"): return I(int(s[2:]) if width(ty) > 1 else int(s[2:]) & 1)
        if s in ("null",): return I(0)
        if s == "zero": return ("b", (0,) * width(ty))
        if s == "undef": return ("b", (0,) * width(ty)) if ty[0] == "<" else I(0)
        if s.startswith("v:["):
            l = lane(ty); out = []
            for x in s[3:-1].split(","): out += [(int(x) >> k) & 1 for k in range(l)]
            return ("b", tuple(out))
        if s.startswith("ge:"):
            _, o, b = s.split(":", 2); q = self.const(b, "ptr"); return ("p", q[1], add(q[2], I(int(o))))
        if s.startswith("g:"): return ("p", ("glob", s[2:]), I(0))
        m = re.match(r"k:<(.*)>$", s)
        if m and ty[0] == "<":
            l = lane(ty); out = []
            for x in m.group(1).split(","):
                y = x.split()[-1]
                n = 0 if y in ("undef", "poison", "zeroinitializer") else int(y)
                out += [(n >> k) & 1 for k in range(l)]
            return ("b", tuple(out))
        if s.startswith("k:"): raise Open(f"the constant {s[:60]}")
        return ("s", s)

    def lanes(self, v, ty):
        w = width(ty); l = lane(ty); bs = self.tobits(v, w)
        return [bs[k:k + l] for k in range(0, w, l)]

    def pack(self, ls, ty): return self.norm(("b", tuple(x for l in ls for x in l)), ty)

    def addb(self, a, b, cin=0):
        out = []; c = cin; B = self.b
        for x, y in zip(a, b):
            t = B.xor(x, y); out.append(B.xor(t, c)); c = B.ite(t, c, x)
        return tuple(out), c

    def lt(self, a, b, signed=False):
        B = self.b
        if signed: a = a[:-1] + (B.inv(a[-1]),); b = b[:-1] + (B.inv(b[-1]),)
        r = 0
        for x, y in zip(a, b): r = B.ite(B.xor(x, y), y, r)
        return r

    def shift(self, op, a, n):
        w = len(a)
        if n >= w: raise Open("a shift by the width or more")
        if op == "shl": return (0,) * n + a[:w - n]
        return a[n:] + ((a[-1],) if op == "ashr" else (0,)) * n

    def binop(self, op, a, b, ty):
        if op == "sub" and a[0] == "p" and b[0] == "p" and a[1] == b[1]: return add(a[2], b[2], -1)
        if op in ("add", "sub") and a[0] == "p" and b[0] != "p": return ("p", a[1], add(a[2], b, 1 if op == "add" else -1))
        if a[0] == "p" or b[0] == "p": raise Open("arithmetic on a pointer")
        B = self.b
        if a[0] != "b" and b[0] != "b":
            w = width(ty); M = (1 << w) - 1
            if is_int(a) and is_int(b):
                x, y = a[1] & M, b[1] & M; sx = x - (1 << w) if x >> (w - 1) else x; sy = y - (1 << w) if y >> (w - 1) else y
                if op in ("udiv", "urem", "sdiv", "srem") and y == 0: raise Open("division by zero")
                if op in ("shl", "lshr", "ashr") and y >= w: raise Open("a shift by the width or more")
                r = {"add": lambda: x + y, "sub": lambda: x - y, "mul": lambda: x * y, "udiv": lambda: x // y, "urem": lambda: x % y, "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y,
                     "shl": lambda: x << y, "lshr": lambda: x >> y, "ashr": lambda: sx >> y, "sdiv": lambda: int(abs(sx) // abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1),
                     "srem": lambda: (abs(sx) % abs(sy)) * (1 if sx >= 0 else -1)}[op]()
                return I(r & M)
            neg = lambda e: I(e[1] - (1 << w)) if is_int(e) and e[1] >> (w - 1) == 1 else add(e, I(-(1 << w))) if e[0] == "lin" and e[1] >> (w - 1) == 1 else e
            if op == "add": return add(neg(a), neg(b))
            if op == "sub": return add(neg(a), neg(b), -1)
            if op == "mul" and (is_int(a) or is_int(b)): return mul(a, b) if is_int(a) else mul(b, a)
            if op == "shl" and is_int(b): return mul(I(1 << b[1]), a)
            if op in ("udiv", "sdiv") and is_int(b):
                n = b[1]
                if n == 1: return a
                s, c = split(a)
                if c % n == 0 and all(k % n == 0 for _, k in s): 
                    out = I(c // n)
                    for t, k in s: out = add(out, mul(I(k // n), t))
                    return out
            raise Open(f"{op} of sizes")
        x, y = self.lanes(a, ty), self.lanes(b, ty)
        if op in ("xor", "and", "or"):
            g = {"xor": B.xor, "and": B.conj, "or": B.disj}[op]
            return self.pack([[g(p, q) for p, q in zip(u, v)] for u, v in zip(x, y)], ty)
        if op == "add": return self.pack([self.addb(u, v)[0] for u, v in zip(x, y)], ty)
        if op == "sub": return self.pack([self.addb(u, tuple(B.inv(q) for q in v), 1)[0] for u, v in zip(x, y)], ty)
        if op in ("shl", "lshr", "ashr"):
            out = []
            for u, v in zip(x, y):
                if all(q < 2 for q in v): out.append(self.shift(op, tuple(u), sum(q << k for k, q in enumerate(v))))
                else:
                    u = tuple(u); w = len(u)
                    for k, q in enumerate(v):
                        if q == 0: continue
                        s = self.shift(op, u, 1 << k) if (1 << k) < w else (0,) * w
                        u = tuple(B.ite(q, n, o) for n, o in zip(s, u))
                    out.append(u)
            return self.pack(out, ty)
        if op == "mul":
            out = []
            for u, v in zip(x, y):
                if sum(q > 1 for q in v) > sum(q > 1 for q in u): u, v = v, u
                acc = (0,) * len(u)
                for k, q in enumerate(v):
                    if q == 0: continue
                    acc = self.addb(acc, tuple(B.conj(q, z) for z in self.shift("shl", tuple(u), k)))[0]
                out.append(acc)
            return self.pack(out, ty)
        if op in ("udiv", "urem") and all(q < 2 for v in y for q in v):
            out = []
            for u, v in zip(x, y):
                n = sum(q << k for k, q in enumerate(v))
                if n == 0 or n & (n - 1): raise Open("division of data")
                k = n.bit_length() - 1
                out.append(tuple(u[k:]) + (0,) * k if op == "udiv" else tuple(u[:k]) + (0,) * (len(u) - k))
            return self.pack(out, ty)
        raise Open(f"{op} of data")

    def cmp(self, pr, a, b, w):
        B = self.b
        if a[0] == "p" and b[0] == "p":
            if a[1] != b[1]:
                if pr == "eq": return I(0)
                if pr == "ne": return I(1)
                raise Open("an order between two objects")
            a, b = a[2], b[2]
        elif "p" in (a[0], b[0]):
            if pr == "eq": return I(0)
            if pr in ("ne", "ugt", "uge"): return I(1)
            raise Open("a pointer compared")
        if a[0] != "b" and b[0] != "b":
            if is_int(a) and is_int(b):
                M = (1 << w) - 1; x, y = a[1] & M, b[1] & M
                if pr[0] == "s": x, y = [z - (1 << w) if z >> (w - 1) else z for z in (x, y)]
            else:
                d = add(a, b, -1)
                if not is_int(d): raise Open("an undecided comparison of sizes")
                x, y = d[1], 0
            return I(int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[pr if pr in ("eq", "ne") else pr[1:]]))
        if a[0] not in ("b", "i") or b[0] not in ("b", "i"): raise Open("a size compared with data")
        w = len(a[1]) if a[0] == "b" else len(b[1]); x, y = self.tobits(a, w), self.tobits(b, w); s = pr[0] == "s"
        if pr in ("eq", "ne"):
            r = 1
            for p, q in zip(x, y): r = B.conj(r, B.inv(B.xor(p, q)))
            if pr == "ne": r = B.inv(r)
        else:
            o = pr[1:]
            r = self.lt(x, y, s) if o in ("lt", "ge") else self.lt(y, x, s)
            if o in ("ge", "le"): r = B.inv(r)
        return I(r) if r < 2 else ("b", (r,))

    # --- functions
    def opaque(self, g, args, i): return None            # the caller's model of a call: (value,) or None
    def run(self, f, args, depth=0):
        if depth > self.depth: raise Open("too deep")
        self.called.add(f.name)
        return self.go(f, args, {}, 0, None, depth)

    def go(self, f, args, env, bi, prev, depth):
        def val(v, ty=None):
            if isinstance(v, int): return args[v] if v < f.nargs else env[v]
            return self.const(v, ty or "i64")
        while True:
            blk = f.blocks[bi]; phis = {}
            for i in blk:
                self.left -= 1
                if self.left < 0: raise Open("too long")
                op, r = i.op, i.raw
                try:
                    if op == "phi": phis[i.id] = next(val(v, r[3]) for v, b in r[4] if b == prev); continue
                    if phis: env.update(phis); phis = {}
                    nb = self.step(f, i, op, r, env, val, depth)
                except Open as e:
                    if not hasattr(e, "at"): e.at = i.where
                    raise
                if nb is None: continue
                if nb[0] == "fork": return self.fork(f, args, env, bi, nb[1], nb[2], depth)
                if nb[0] == "ret": return nb[1]
                prev, bi = bi, nb[1]; break
            else: raise Open("no terminator")

    def fork(self, f, args, env, bi, c, ways, depth):
        """both sides of a branch on data, joined again where the function returns"""
        self.forks -= 1
        if self.forks < 0: raise Open("too many branches on data")
        B = self.b; pc = self.pc
        t, e = B.conj(pc, c), B.conj(pc, B.inv(c))
        if t == 0: return self.go(f, args, env, ways[1], bi, depth)
        if e == 0: return self.go(f, args, env, ways[0], bi, depth)
        copy = lambda m: {k: dict(v) for k, v in m.items()}
        m0 = copy(self.mem); self.pc = t; r1 = self.go(f, args, dict(env), ways[0], bi, depth); m1 = self.mem
        self.mem = m0; self.pc = e; r2 = self.go(f, args, dict(env), ways[1], bi, depth); m2 = self.mem
        self.pc = pc; self.mem = {}
        for k in set(m1) | set(m2):
            a, b = m1.get(k, {}), m2.get(k, {}); o = self.mem[k] = {}
            for x in set(a) | set(b):
                u = a[x] if x in a else self.init(k[0], k[1], x); v = b[x] if x in b else self.init(k[0], k[1], x)
                if u == v: o[x] = u
                elif u == ("undef",) or v == ("undef",): o[x] = ("undef",)
                elif u[0] in ("P", "Q") or v[0] in ("P", "Q"): raise Open("a position that depends on data")
                else: o[x] = tuple(B.ite(c, p, q) for p, q in zip(u, v))
        if r1 == r2 or r1 is None: return r1
        if r1[0] in ("b", "i") and r2[0] in ("b", "i"):
            ty = f.d.get("rt", "i64"); w = width(ty)
            return self.norm(("b", tuple(B.ite(c, p, q) for p, q in zip(self.tobits(r1, w), self.tobits(r2, w)))), ty)
        raise Open("a position that depends on data")

    def step(self, f, i, op, r, env, val, depth):
        if op == "load": env[i.id] = self.load(val(r[4], "ptr"), r[3])
        elif op == "store": self.store(val(r[5], "ptr"), val(r[4], r[3]), r[3], i)
        elif op == "gep":
            p = val(r[4], "ptr")
            if p[0] != "p": raise Open("an address in an unknown object")
            if r[6] is not None: env[i.id] = ("p", p[1], add(p[2], I(r[6])))
            elif len(r[5]) == 1: env[i.id] = ("p", p[1], add(p[2], self.scaled(val(r[5][0]), r[7])))
            elif len(r[5]) == 2 and r[3][0] == "[":
                m = re.match(r"\[(\d+) x (.*)\]$", r[3])
                env[i.id] = ("p", p[1], add(add(p[2], self.scaled(val(r[5][0]), r[7])), self.scaled(val(r[5][1]), r[7] // int(m.group(1)))))
            else: raise Open("an address in a structure")
        elif op == "alloca": env[i.id] = ("p", self.fresh("alloca"), I(0))
        elif op == "icmp":
            a, b = val(r[4]), val(r[5])
            if a[0] == "b" and len(a[1]) > 64: raise Open("a comparison of vectors")
            env[i.id] = self.cmp(r[3], a, b, self.bitw(f, r[4], r[5]))
        elif op == "select":
            c, a, b = val(r[4], "i1"), val(r[5], r[3]), val(r[6], r[3])
            if is_int(c): env[i.id] = a if c[1] & 1 else b
            elif c[0] == "b" and len(c[1]) == 1:
                if a == b: env[i.id] = a
                else:
                    w = width(r[3]); env[i.id] = self.norm(("b", tuple(self.b.ite(c[1][0], x, y) for x, y in zip(self.tobits(a, w), self.tobits(b, w)))), r[3])
            else: raise Open("a choice between vectors")
        elif op == "cast": env[i.id] = self.cast(r[3], r[4], val(r[5], r[6]), r[6])
        elif op in ("call", "invoke"):
            v = self.call(f, i, env, val, depth)
            if i.id >= 0: env[i.id] = v
            if op == "invoke": return ("br", i.normal)
        elif op == "br":
            if r[3] is None: return ("br", r[4][0])
            c = val(r[3], "i1")
            if not is_int(c):
                if c[0] == "b": return ("fork", c[1][0], r[4])
                raise Open("a branch on data")
            return ("br", r[4][0] if c[1] & 1 else r[4][1])
        elif op == "switch":
            c = val(r[3])
            if not is_int(c): raise Open("a branch on data")
            return ("br", next((b for v, b in r[5] if v == c[1]), r[4]))
        elif op == "ret": return ("ret", None if r[3] is None else val(r[3], f.d.get("rt", "i64")))
        elif op == "x":
            k = r[3]
            if k == "freeze": env[i.id] = val(r[5], r[4])
            elif k == "shufflevector":
                src = r[8]; l = lane(src); v = self.lanes(val(r[5], src), src); u = self.lanes(val(r[6], src), src); t = v + u
                env[i.id] = ("b", tuple(x for m in r[7] for x in (t[m] if m >= 0 else (0,) * l)))
            elif k == "insertelement":
                ls = self.lanes(val(r[5], r[4]), r[4]); n = val(r[7])
                if not is_int(n): raise Open("an element at an unknown place")
                ls[n[1]] = self.tobits(val(r[6], "i%d" % lane(r[4])), lane(r[4])); env[i.id] = ("b", tuple(x for l in ls for x in l))
            elif k == "extractelement":
                n = val(r[6]); v = val(r[5], None); l = width(r[4])
                if not is_int(n): raise Open("an element at an unknown place")
                env[i.id] = self.norm(("b", v[1][n[1] * l:(n[1] + 1) * l]), r[4])
            else: raise Open(f"the operation {k}")
        elif op in ("unreachable", "resume", "lpad", "extractvalue"): raise Open(f"{op}")
        else: env[i.id] = self.binop(op, val(r[4], r[3]), val(r[5], r[3]), r[3])
        return None

    def bitw(self, f, *vs):
        for v in vs:
            if isinstance(v, int):
                if v < f.nargs:
                    t = (f.d.get("at") or [""] * f.nargs)[v]
                else:
                    d = f.defs.get(v); t = d.raw[4] if d.op in ("cast", "x") else "ptr" if d.op in ("gep", "alloca") else "i1" if d.op == "icmp" else d.raw[3]
                try: return width(t)
                except Open: pass
        return 64

    def scaled(self, n, k):
        if n[0] == "b": raise Open("a position that depends on data")
        if n[0] == "p": raise Open("a pointer used as a position")
        if is_int(n) and n[1] >= 1 << 63: n = I(n[1] - (1 << 64))
        if n[0] == "lin" and n[1] >= 1 << 63: n = add(n, I(-(1 << 64)))
        return mul(I(k), n)

    def cast(self, how, ty, v, src):
        if how in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast"):
            if how == "bitcast" and is_int(v) and ty[0] == "<": return ("b", self.tobits(v, width(ty)))
            if how == "bitcast" and ty[0] == "i": return self.norm(v, ty)
            if how == "ptrtoint" and v[0] == "p": return v
            return v
        if v[0] == "p": raise Open("a pointer converted")
        if v[0] in ("i",) and src[0] == "i":
            w, s = width(ty), width(src); x = v[1] & ((1 << s) - 1)
            if how == "sext" and x >> (s - 1): x -= 1 << s
            return I(x & ((1 << w) - 1))
        if v[0] != "b":
            if how in ("zext", "sext"): return v
            if how == "trunc" and width(ty) >= 32: return v
            raise Open("part of a size")
        n = width(ty) // (len(v[1]) // lane(src)) if src[0] == "<" else width(ty); ls = self.lanes(v, src); out = []
        for u in ls: out.append(tuple(u[:n]) if how == "trunc" else tuple(u) + ((u[-1],) if how == "sext" else (0,)) * (n - len(u)))
        if how not in ("trunc", "zext", "sext"): raise Open(f"the conversion {how}")
        return self.pack(out, ty)

    def copy(self, d, s, n, i):
        if not is_int(n): raise Open("a copy of unknown length")
        if n[1] == 0: return
        if d[0] != "p" or s[0] != "p": raise Open("a copy of unknown place")
        if d[1][0] == "glob": raise Open("a store to a global")
        if n[1] > 1 << 16: raise Open("a long copy")
        bs = self.bytes(s[1], s[2], n[1]); m, sy, c = self.cell(d[1], d[2])
        self.log.append((d[1], sy, c, n[1], i))
        for k, x in enumerate(bs): m[c + k] = x

    def call(self, f, i, env, val, depth):
        c = i.callee; r = i.raw
        if isinstance(c, str) and c.startswith("g:llvm."):
            nm = c[7:]
            if nm.startswith(("lifetime", "dbg", "prefetch", "assume", "experimental.noalias", "expect")): return val(i.args[0]) if nm.startswith("expect") else None
            if nm.startswith(("memcpy", "memmove")): self.copy(val(i.args[0], "ptr"), val(i.args[1], "ptr"), val(i.args[2]), i); return None
            if nm.startswith("memset"):
                d, v, n = val(i.args[0], "ptr"), val(i.args[1], "i8"), val(i.args[2])
                if not is_int(n): raise Open("a fill of unknown length")
                if n[1] == 0: return None
                if d[0] != "p" or n[1] > 1 << 16: raise Open("a fill of unknown place")
                bs = self.tobits(v, 8) if v[0] == "b" else tuple((v[1] >> k) & 1 for k in range(8)); m, s, o = self.cell(d[1], d[2]); self.log.append((d[1], s, o, n[1], i))
                for k in range(n[1]): m[o + k] = bs
                return None
            a = [val(x, r[3]) for x in i.args]
            if nm.startswith("bswap"):
                bs = self.tobits(a[0], width(r[3])); return self.norm(("b", tuple(x for k in range(len(bs) - 8, -1, -8) for x in bs[k:k + 8])), r[3])
            if nm.startswith(("fshl", "fshr")):
                w = lane(r[3]); out = []
                for x, y, n in zip(*(self.lanes(z, r[3]) for z in a)):
                    if any(q > 1 for q in n): raise Open("a rotation by data")
                    k = sum(q << j for j, q in enumerate(n)) % w; t = tuple(y) + tuple(x)
                    out.append(t[w - k:2 * w - k] if nm.startswith("fshl") else t[k:k + w])
                return self.pack(out, r[3])
            if nm.startswith(("umin", "umax", "smin", "smax")):
                q = self.cmp(("u" if nm[0] == "u" else "s") + "lt", a[0], a[1], width(r[3]))
                if is_int(q): return a[0] if bool(q[1]) == (nm[1:4] == "min") else a[1]
            raise Open(f"the intrinsic {nm}")
        args = [val(x) for x in i.args]
        g = self.p.funcs.get(c[2:]) if isinstance(c, str) and c.startswith("g:") else None
        if g is not None and any(isinstance(x, str) for x in i.args):
            at = g.d.get("at") or []
            args = [val(x, at[k] if k < len(at) else "i64") for k, x in enumerate(i.args)]
        o = self.opaque(g, args, i)
        if o is not None: return o[0]
        if g is None:
            nm = c[2:] if isinstance(c, str) else "a virtual function"
            if nm in ("_Znwy", "_Znwm", "malloc"): return ("p", self.fresh("heap"), I(0))
            if nm in ("_ZdlPv", "_ZdlPvy", "_ZdlPvm", "free"): return None
            if nm in ("memcpy", "memmove"): self.copy(*args[:3], i); return args[0]
            raise Open(f"a call of {nm[:60]}")
        return self.run(g, args, depth + 1)
