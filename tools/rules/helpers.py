"""C17: the shared memory, byte-order, counter and mask helpers compute exactly what their names say, for every data value."""
import re
from collections import Counter
from ir import I, add, is_int
from bits import Bits, Open, width, split

MEMT, INTT = "CEX::Tools::MemoryTools", "CEX::Tools::IntegerTools"
WIDE = {"unsigned char": 1, "char": 1, "signed char": 1, "unsigned short": 2, "short": 2, "unsigned int": 4, "int": 4, "unsigned long": 4, "unsigned long long": 8, "long long": 8}
LENGTHS = sorted(set(range(0, 70)) | {95, 96, 97, 127, 128, 129, 160, 191, 200})
SHORT = [0, 4, 8, 32, 40, 72, 136]
ROT = {"RotL32": (32, 0), "RotL64": (64, 0), "RotR32": (32, 1), "RotR64": (64, 1), "RotFL32": (32, 0), "RotFL64": (64, 0), "RotFR32": (32, 1), "RotFR64": (64, 1)}


class Skip(Exception): pass


def elem(t):
    """(element type, kind) of an array parameter"""
    t = t.replace("const ", "").strip()
    m = re.match(r"std::vector<([^<>]*?),", t)
    if m: return m.group(1).strip(), "vector"
    m = re.match(r"std::array<(.*), *(\d+)\w*>", t)
    if m: return m.group(1).strip(), ("array", int(m.group(2)))
    m = re.match(r"(.*?)\s*[*&]$", t)
    if m: return m.group(1).strip(), "raw"
    raise Skip(t)


class Fn:
    """one instantiation of a helper, with the places its parameters stand for"""
    def __init__(self, p, f):
        self.p = p; self.f = f; self.b = Bits(p); self.pt = dict(f.param_types()); self.at = f.d["at"]
        self.nm = f.base_nm
        self.ks = [k for k in range(f.nargs) if not (f.sret and k == 0)]
        self.sig = "".join("p" if self.at[k] == "ptr" else "n" for k in self.ks)
        self.arg = {}
        self.off = {}

    def es(self, n):
        t, kind = elem(self.pt[self.ks[n]])
        if kind == "raw": return 1
        if t not in WIDE: raise Skip(t)
        return WIDE[t]

    def size(self, n):
        """bytes of one element, objects included"""
        return self.es(n)

    def place(self, n, nbytes=None, other=None):
        """parameter n is an array (of nbytes bytes); returns its bytes' region"""
        k = self.ks[n]
        if self.at[k] != "ptr": raise Skip("not an array")
        rg = ("arg", self.ks[n if other is None else other]); kind = elem(self.pt[k])[1]
        self.arg[k] = ("p", rg, I(0))
        if kind == "vector":
            self.b.vector(rg, I(nbytes) if nbytes is not None else ("size", rg)); return ("data", rg)
        if isinstance(kind, tuple) and nbytes is not None and kind[1] * self.es(n) != nbytes: raise Skip("a fixed size")
        return rg

    def data(self, n, nm, w=None):
        k = self.ks[n]
        if self.at[k] == "ptr": raise Skip("not a value")
        w = width(self.at[k]); v = ("b", tuple(self.b.b.var((j, nm, "")) for j in range(w))); self.arg[k] = v
        return v[1]

    def num(self, n, v): self.arg[self.ks[n]] = v
    def sym(self, n):
        k = self.ks[n]; v = ("arg", k); self.arg[k] = v; return v

    def byte(self, rg, off, k):
        s, c = split(off); return self.b.init(rg, s, c + k)

    def run(self):
        a = [self.arg.get(k) for k in range(self.f.nargs)]
        if self.f.sret: a[0] = ("p", ("alloca", "ret"), I(0)); self.b.vector(("alloca", "ret"), I(0))
        if any(x is None for x in a): raise Skip("parameters")
        return self.b.run(self.f, a)

    def verify(self, want):
        """want: {(region, symbolic part): {byte: bits}}; every byte the caller can see is as wanted, and otherwise as it was"""
        for key, m in self.b.mem.items():
            rg, s = key
            if rg[0] in ("alloca", "heap", "glob"): continue
            w = want.get(key, {})
            for c, x in m.items():
                if x[0] in ("P", "Q"): return f"byte {c} of {place(rg, s)} receives a position"
                y = w[c] if c in w else self.b.init(rg, s, c)
                if x != y: return (f"byte {c} from {place(rg, s)} is not what is asked for" if c in w else f"byte {c} from {place(rg, s)}, outside the range asked for, is changed")
        for key, w in want.items():
            m = self.b.mem.get(key, {})
            for c, y in w.items():
                if c not in m and y != self.b.init(key[0], key[1], c): return f"byte {c} from {place(*key)} is left unwritten"
        return None


def place(rg, s):
    while rg[0] == "data": rg = rg[1]
    o = " + ".join(("" if k == 1 else f"{k}*") + (f"arg{t[1]}" if t[0] == "arg" else str(t)) for t, k in s) if s else "0"
    return f"position {o} of parameter {rg[1] if len(rg) > 1 else rg}"


def put(want, rg, off, bs):
    s, c = split(off); w = want.setdefault((rg, s), {})
    for k, x in enumerate(bs): w[c + k] = x


def from_bits(bs): return [tuple(bs[k:k + 8]) for k in range(0, len(bs), 8)]


def scale(v, es): return add(I(0), v) if es == 1 else ("lin", 0, ((v, es),)) if not is_int(v) else I(v[1] * es)


# ------------------------------------------------------------------ what the names mean
def binary(op):
    def case(x, n, offs=True, alias=None):
        # (Input, InOffset, Output, OutOffset[, Length]) or (Input, Output, Length)
        B = x.b.b
        if offs: i, io, o, oo, l = 0, 1, 2, 3, 4
        else: i, io, o, oo, l = 0, None, 1, None, 2
        ei, eo = x.es(i), x.es(o)
        if n % ei or n % eo: return None
        if alias and x.pt[x.ks[i]].replace("const ", "") != x.pt[x.ks[o]].replace("const ", ""): return None
        ri = x.place(i); ro = x.place(o, other=i if alias else None)
        if alias: ro = ri
        pi = scale(x.sym(io), ei) if io is not None else I(0); po = scale(x.sym(oo), eo) if oo is not None else I(0)
        if alias and oo is not None:
            if ei != eo: return None
            x.arg[x.ks[oo]] = x.arg[x.ks[io]]; po = pi
        if len(x.ks) > l: x.num(l, I(n))
        want = {}; bs = []
        for k in range(n):
            u, v = x.byte(ri, pi, k), x.byte(ro, po, k)
            bs.append(u if op == "copy" else tuple({"xor": B.xor, "and": B.conj, "or": B.disj}[op](p, q) for p, q in zip(u, v)))
        put(want, ro, po, bs)
        return want, None
    return case


def fill(value):
    def case(x, n):
        # (Output, Offset[, Length][, Value])
        if x.sig in ("pn", "pnn", "pnnn"):
            es = x.es(0)
            if n % es: return None
            r = x.place(0); p = scale(x.sym(1), es); rest = x.ks[2:]
            if x.nm in ("Clear", "SetValue"): x.num(2, I(n)); rest = rest[1:]
            v = (0,) * 8
            if value: v = x.data(len(x.ks) - 1, "value")
            put(w := {}, r, p, [tuple(v)] * n)
            return w, None
        raise Skip("signature")
    return case


def object_copy(to):
    def case(x, n):
        # (Object* Input, Output, OutOffset, Length) / (Input, InOffset, Object* Output, Length)
        a, ao, o = (0, 1, 2) if to else (1, 2, 0)
        es = x.es(a)
        if n % es: return None
        ra = x.place(a); ro = x.place(o); pa = scale(x.sym(ao), es)
        if len(x.ks) > 3: x.num(3, I(n))
        w = {}
        if to: put(w, ro, I(0), [x.byte(ra, pa, k) for k in range(n)])
        else: put(w, ra, pa, [x.byte(ro, I(0), k) for k in range(n)])
        return w, None
    return case


def from_value(x, n):
    es = x.es(1); r = x.place(1); p = scale(x.sym(2), es)
    if x.at[x.ks[0]] == "ptr": raise Skip("not a value")
    v = from_bits(x.data(0, "value"))
    if n > len(v): return None
    x.num(3, I(n)); w = {}; put(w, r, p, v[:n]); return w, None


def to_value(x, n):
    es = x.es(0); r = x.place(0); p = scale(x.sym(1), es); t = elem(x.pt[x.ks[2]])[0]
    if t not in WIDE or n > WIDE[t]: return None
    q = x.place(2); x.num(3, I(n)); w = {}; put(w, q, I(0), [x.byte(r, p, k) for k in range(n)]); return w, None


def xorpad(x, n):
    es = x.es(0)
    if n % es: return None
    r = x.place(0, n); v = x.data(1, "value"); w = {}
    put(w, r, I(0), [tuple(x.b.b.xor(p, q) for p, q in zip(x.byte(r, I(0), k), v)) for k in range(n)]); return w, None


def to_bytes(w, big, raw=False):
    def case(x, n):
        v = from_bits(x.data(0, "value"))
        if len(v) != w: raise Skip("width")
        if big: v = v[::-1]
        want = {}
        if len(x.ks) == 1: return want, ("object", v)
        r = x.place(1)
        put(want, r, I(0) if raw else scale(x.sym(2), x.es(1)), v); return want, None
    return case


def from_bytes(w, big, raw=False):
    def case(x, n):
        r = x.place(0); p = I(0) if raw else scale(x.sym(1), x.es(0)); m = w
        if not raw and len(x.ks) == 3:
            if not 1 <= n <= w: return None
            x.num(2, I(n)); m = n
        v = [x.byte(r, p, k) for k in range(m)]
        if big: v = v[::-1]
        return {}, ("value", tuple(q for y in v for q in y) + (0,) * (8 * (w - m)))
    return case


def block(big, encode):
    def case(x, n):
        # words to bytes or bytes to words; Length in bytes
        ei, eo = x.es(0), x.es(2); e = ei if encode else eo
        if n % e or n == 0: return None
        r, o = x.place(0), x.place(2); pi, po = scale(x.sym(1), ei), scale(x.sym(3), eo); x.num(4, I(n)); bs = [x.byte(r, pi, k) for k in range(n)]
        if big: bs = [b for k in range(0, n, e) for b in bs[k:k + e][::-1]]
        w = {}; put(w, o, po, bs); return w, None
    return case


def words(n, big, encode, bits):
    def case(x, _):
        ei, eo = x.es(0), x.es(2); r, o = x.place(0), x.place(2); pi, po = scale(x.sym(1), ei), scale(x.sym(3), eo); bs = [x.byte(r, pi, k) for k in range(n)]; e = bits
        if (ei if encode else eo) != e: return None
        if big: bs = [b for k in range(0, n, e) for b in bs[k:k + e][::-1]]
        w = {}; put(w, o, po, bs); return w, None
    return case


def rotate(w, right):
    def case(x, n):
        if not 1 <= n < w: return None
        v = x.data(0, "value"); x.num(1, I(n)); k = n if right else w - n
        return {}, ("value", v[k:] + v[:k])
    return case


def incr(big, src=False, val=False, words=False):
    def case(x, n):
        """a counter of n bytes (in words of the element's size) grows by one, or by the value given, modulo its size"""
        B = x.b.b; es = x.es(0)
        if n % es or n == 0 or n > 24: return None
        kinds = x.sig; i = 0; w = {}
        if not src:
            off = I(0)
            if kinds == "p": r = x.place(0, n)
            elif kinds == "pn" and not val:              # (Output, Length in elements)
                r = x.place(0, n + 2 * es); x.num(1, I(n // es))
            elif kinds == "pnn" and not val: r = x.place(0); off = scale(x.sym(1), es); x.num(2, I(n))
            elif kinds == "pn" and val: r = x.place(0, n)
            else: raise Skip("signature")
            ri, po = r, off; out = r
        else:
            ri = x.place(0, n); out = x.place(1, n); po = I(0)
            if es != x.es(1): return None
            if kinds == "ppn": pass
            elif kinds == "ppnn": ri = x.place(0, n); out = x.place(1); x.b.vector(("arg", x.ks[1]), add(scale(("arg", x.ks[2]), es), I(n))); po = scale(x.sym(2), es)
            elif kinds == "ppnnn": out = x.place(1); po = scale(x.sym(2), es); x.num(3, I(n // es))
            else: raise Skip("signature")
        at = po if not src else I(0)
        cur = [x.byte(ri, at, k) for k in range(n)]
        if val:
            last = len(x.ks) - 1; v = x.data(last, "value")
            if len(v) > 8 * n: v = v[:8 * n]
            v = tuple(v) + (0,) * (8 * n - len(v))
        else: v = (1,) + (0,) * (8 * n - 1)
        if big: cur = cur[::-1]
        s = x.b.addb(tuple(q for y in cur for q in y), v)[0]; bs = from_bits(s)
        put(w, out, po, bs[::-1] if big else bs)
        return w, None
    return case


def equal(value):
    def case(x, n):
        # (A, AOffset, B, BOffset, Length) or (A, B, Length); value(B, n, diff bit) gives the answer
        B = x.b.b
        offs = len(x.ks) == 5; a, b = (0, 2) if offs else (0, 1)
        ea, eb = x.es(a), x.es(b)
        if ea != eb: return None
        ra, rb = x.place(a), x.place(b); pa = pb = I(0)
        if offs: pa, pb = scale(x.sym(1), ea), scale(x.sym(3), eb)
        x.num(4 if offs else 2, I(n)); m = n * ea
        if m > 72: return None
        d = 0
        for k in range(m):
            for p, q in zip(x.byte(ra, pa, k), x.byte(rb, pb, k)): d = B.disj(d, B.xor(p, q))
        return {}, (value, d)
    return case


def word(fn):
    """a function of words: fn(B, bits of the arguments, Fn) gives the bits of the result"""
    def case(x, n):
        vs = [x.data(k, "v%d" % k) for k in range(len(x.ks))]
        return {}, ("value", tuple(fn(x.b.b, vs, x)))
    return case


def ones(b, w): return (b,) * w
def iszero(B, v):
    r = 1
    for q in v: r = B.conj(r, B.inv(q))
    return r
def eqb(B, u, v): return iszero(B, [B.xor(p, q) for p, q in zip(u, v)])
def mux(B, c, u, v): return [B.ite(c, p, q) for p, q in zip(u, v)]


def cmov(x, n):
    B = x.b.b; raw = x.sig == "ppnn"
    a, o = (0, 1) if raw else (0, 2)
    if n == 0: return None
    ra, ro = x.place(a), x.place(o); pa = pb = I(0)
    if not raw: pa, pb = scale(x.sym(1), x.es(0)), scale(x.sym(3), x.es(2))
    x.num(len(x.ks) - 2, I(n)); c = x.data(len(x.ks) - 1, "condition")
    for q in c[1:]: x.b.pc = B.conj(x.b.pc, B.inv(q))            # 0 or 1
    m = {(k, "condition", ""): 0 for k in range(1, 8)}
    x.only = m
    w = {}; put(w, ro, pb, [tuple(B.ite(c[0], p, q) for p, q in zip(x.byte(ra, pa, k), x.byte(ro, pb, k))) for k in range(n * x.es(o))])
    return w, None


def choose(x, n):
    # (Value, To, From0, From1, Length): From0 if Value is not zero
    B = x.b.b; t = elem(x.pt[x.ks[1]])[0]
    if t not in WIDE or n % WIDE[t]: return None
    c = B.inv(iszero(B, x.data(0, "value"))); to, a, b = x.place(1), x.place(2), x.place(3); x.num(4, I(n // WIDE[t])); w = {}
    put(w, to, I(0), [tuple(mux(B, c, x.byte(a, I(0), k), x.byte(b, I(0), k))) for k in range(n)]); return w, None


def wipe_if(x, n):
    B = x.b.b; es = x.es(1)
    if n % es: return None
    c = B.inv(iszero(B, x.data(0, "value"))); r = x.place(1); x.num(2, I(n // es)); w = {}
    put(w, r, I(0), [tuple(mux(B, c, (0,) * 8, x.byte(r, I(0), k))) for k in range(n)]); return w, None


def differ(x, n):
    B = x.b.b
    if x.es(0) != 1: return None
    a, b = x.place(0), x.place(1); x.num(2, I(n)); d = 0
    for k in range(n):
        for p, q in zip(x.byte(a, I(0), k), x.byte(b, I(0), k)): d = B.disj(d, B.xor(p, q))
    return {}, ("value", (d,) * 32)


SPEC = {}
for _n in ("Copy", "Move"): SPEC[MEMT, _n] = (binary("copy"), LENGTHS)
SPEC[MEMT, "CopyRaw"] = (lambda x, n: binary("copy")(x, n, False), LENGTHS)
for _n in ("XOR", "XorPartial"): SPEC[MEMT, _n] = (binary("xor"), LENGTHS)
SPEC[MEMT, "XorRaw"] = (lambda x, n: binary("xor")(x, n, False), LENGTHS)
SPEC[MEMT, "AND"] = (binary("and"), LENGTHS); SPEC[MEMT, "OR"] = (binary("or"), LENGTHS)
for _w in (128, 256, 512, 1024):
    for _n, _o in (("COPY", "copy"), ("XOR", "xor"), ("AND", "and"), ("OR", "or")): SPEC[MEMT, f"{_n}{_w}"] = (binary(_o), [_w // 8])
    SPEC[MEMT, f"CLEAR{_w}"] = (fill(False), [_w // 8]); SPEC[MEMT, f"SETVAL{_w}"] = (fill(True), [_w // 8])
    SPEC[MEMT, f"COPY{_w}FROMOBJECT"] = (object_copy(False), [_w // 8]); SPEC[MEMT, f"COPY{_w}TOOBJECT"] = (object_copy(True), [_w // 8])
SPEC[MEMT, "Clear"] = (fill(False), LENGTHS); SPEC[MEMT, "SetValue"] = (fill(True), LENGTHS)
SPEC[MEMT, "CopyFromObject"] = (object_copy(False), LENGTHS); SPEC[MEMT, "CopyToObject"] = (object_copy(True), LENGTHS)
SPEC[MEMT, "CopyFromValue"] = (from_value, range(1, 9)); SPEC[MEMT, "CopyToValue"] = (to_value, range(1, 9)); SPEC[MEMT, "XorPad"] = (xorpad, LENGTHS)
SPEC[MEMT, "Compare"] = (equal(lambda B, n, d: (B.inv(d),)), range(0, 40))
for _w in (2, 4, 8):
    for _p, _b in (("Be", True), ("Le", False)):
        SPEC[INTT, f"{_p}{8 * _w}ToBytes"] = (to_bytes(_w, _b), [0]); SPEC[INTT, f"{_p}{8 * _w}ToBytesRaw"] = (to_bytes(_w, _b, True), [0])
        SPEC[INTT, f"{_p}BytesTo{8 * _w}"] = (from_bytes(_w, _b), range(1, 9)); SPEC[INTT, f"{_p}BytesTo{8 * _w}Raw"] = (from_bytes(_w, _b, True), [0])
SPEC[INTT, "BeToBlock"] = (block(True, True), range(4, 72, 4)); SPEC[INTT, "LeToBlock"] = (block(False, True), range(4, 72, 4))
SPEC[INTT, "BlockToBe"] = (block(True, False), range(4, 72, 4)); SPEC[INTT, "BlockToLe"] = (block(False, False), range(4, 72, 4))
for _n, _a in {"BeUL256ToBlock": (32, True, True, 4), "BeULL512ToBlock": (64, True, True, 8), "LeUL256ToBlock": (32, False, True, 4), "LeULL256ToBlock": (32, False, True, 8), "LeULL512ToBlock": (64, False, True, 8),
               "LeULL1024ToBlock": (128, False, True, 8), "LeBytesToUL512": (64, False, False, 4), "LeBytesToULL256": (32, False, False, 8), "LeBytesToULL512": (64, False, False, 8), "LeBytesToULL1024": (128, False, False, 8)}.items():
    SPEC[INTT, _n] = (words(*_a), [0])
for _n, (_w, _r) in ROT.items(): SPEC[INTT, _n] = (rotate(_w, _r), range(1, 64))
COUNT = [1, 2, 4, 7, 8, 12, 16, 24]
SPEC[INTT, "BeIncrement8"] = (incr(True), COUNT); SPEC[INTT, "LeIncrement"] = (incr(False), COUNT)
SPEC[INTT, "Compare"] = (equal(lambda B, n, d: (B.inv(d),)), range(0, 40))
SPEC[INTT, "Verify"] = SPEC[INTT, "VerifyRaw"] = (equal("zero"), range(0, 40))
SPEC[INTT, "CMov"] = SPEC[INTT, "CMovRaw"] = (cmov, range(1, 36))
SPEC[INTT, "ConditionalCopy"] = (choose, range(0, 33)); SPEC[INTT, "ConditionalZeroMem"] = (wipe_if, range(0, 33)); SPEC[INTT, "DiffMask"] = (differ, range(0, 33))
SPEC[INTT, "IsZero"] = (word(lambda B, v, x: ones(iszero(B, v[0]), len(v[0]))), [0])
SPEC[INTT, "IsEqual"] = (word(lambda B, v, x: ones(eqb(B, v[0], v[1]), len(v[0]))), [0])
SPEC[INTT, "IsLess"] = (word(lambda B, v, x: ones(x.b.lt(v[0], v[1]), len(v[0]))), [0])
SPEC[INTT, "IsLte"] = (word(lambda B, v, x: ones(B.inv(x.b.lt(v[1], v[0])), len(v[0]))), [0])
SPEC[INTT, "ExpandMask"] = (word(lambda B, v, x: ones(B.inv(iszero(B, v[0])), len(v[0]))), [0])
SPEC[INTT, "ExpandTopBit"] = (word(lambda B, v, x: ones(v[0][-1], len(v[0]))), [0])
SPEC[INTT, "Select"] = (word(lambda B, v, x: [B.ite(m, p, q) for m, p, q in zip(*v)]), [0])
SPEC[INTT, "CMax"] = SPEC[INTT, "Max"] = (word(lambda B, v, x: mux(B, x.b.lt(v[0], v[1]), v[1], v[0])), [0])
SPEC[INTT, "CMin"] = SPEC[INTT, "Min"] = (word(lambda B, v, x: mux(B, x.b.lt(v[0], v[1]), v[0], v[1])), [0])


def one(p, f, spec, n, alias):
    """None: holds; a string: what is wrong"""
    x = Fn(p, f); x.only = None
    c = spec(x, n, alias=True) if alias else spec(x, n)
    if c is None: raise Skip("not a case")
    want, ret = c
    v = x.run()
    bad = x.verify(want) if x.only is None else cond(x, want)
    if bad: return bad
    if ret is not None:
        kind, e = ret
        if kind == "value":
            if x.b.tobits(v, len(e)) != tuple(e): return "the value returned is not the one asked for"
        elif kind == "object":
            return None
        else:
            bs = x.b.tobits(v, width(f.d["rt"])); B = x.b.b
            if kind == "zero":                              # zero exactly when the two ranges are the same
                if B.inv(iszero(B, bs)) != e: return "the answer is not zero exactly when the ranges are equal"
            elif tuple(bs) != tuple(kind(B, n, e)) + (0,) * (len(bs) - 1): return "the answer is not true exactly when the ranges are equal"
    return None


def cond(x, want):
    B = x.b.b
    for m in list(x.b.mem.values()):
        for c, v in list(m.items()):
            if v and v[0] not in ("P", "Q", "undef"): m[c] = tuple(B.restrict(q, x.only) for q in v)
    for m in want.values():
        for c, v in list(m.items()): m[c] = tuple(B.restrict(q, x.only) for q in v)
    return x.verify(want)


def run_C17(ctx):
    ctx.rule = ("every instantiation of the memory, byte-order, rotation, comparison and mask helpers is evaluated on exact bit-level data flow (every bit a canonical function of the input bits, positions symbolic), "
                "once per length; each output byte must be the function of the input the name promises and every other byte must keep its value")
    ctx.assume += ["sizes and positions do not wrap; a range lies within its array", "lengths: 0..69 bytes and 95, 96, 97, 127, 128, 129, 160, 191, 200 (every residue of the 32-byte wide path, zero to six wide blocks)"]
    p = ctx.p; done = Counter(); undone = {}; seen = set()
    for f in sorted((f for f in p.funcs.values() if f.cls in (MEMT, INTT) and (f.cls, f.base_nm) in SPEC), key=lambda f: f.name):
        spec, lens = SPEC[f.cls, f.base_nm]; ok = 0
        shape = (f.base_nm, tuple(re.sub(r", \d+.*", "", t.replace("CEX::SecureAllocator", "std::allocator")) for _, t in f.param_types()))       # the same template text with elements of the same width
        if shape in seen and lens is LENGTHS: lens = SHORT
        seen.add(shape)
        for alias in ((False, True) if spec.__qualname__.startswith("binary") else (False,)):
            for n in lens:
                try: bad = one(p, f, spec, n, alias)
                except Skip: continue
                except Open as e: undone[f.name] = f"{f.base_nm} at {getattr(e, 'at', f.relfile)}: {e}"; break
                ok += 1; ctx.count("obligations")
                if bad:
                    key = f"{f.cls.split('::')[-1]}::{f.base_nm}: {re.sub(r'[0-9]+', 'n', bad)}"
                    ctx.report(key, f"{f.relfile}:{f.d.get('l')}", f"{f.dem if hasattr(f, 'dem') else f.name}{f', length {n}' if len(lens) > 1 else ''}{', in place' if alias else ''}: {bad}")
                    break
        if ok and f.name not in undone: done[f.base_nm] += 1; ctx.count("functions"); ctx.sample({"function": f.name[:160], "cases": ok})
    for d in sorted(set(undone.values()))[:20]: ctx.notes.append("not decided: " + d)
    ctx.count("undecided", len(undone))
    ctx.notes.append("helpers decided: " + ", ".join(f"{k} ({v})" for k, v in sorted(done.items())))
