"""C22 key-stream counters: every counter value is used for one block, in order, and the counter that was advanced is the one kept in the state."""
import re
import digits, ir, sym
from ir import I, add, root, show, mentions
from frontend import Broken

INC = {"BeIncrement8": "big endian bytes", "LeIncrement": "little endian bytes", "LeIncrementW": "words"}
ADD = {"BeIncrease8": "big endian bytes", "LeIncrease8": "little endian bytes", "LeIncreaseW": "words"}
TOOLS = "CEX::Tools::IntegerTools"


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


def one(p, i):
    ts = p.callees(i) or []
    return p.funcs.get(ts[0]) if len(ts) == 1 else None


def incs(p, f, names=INC):
    for i in f.calls:
        g = one(p, i)
        if g is not None and g.cls == TOOLS and g.base_nm in names: yield i, g


def callers(p):
    out = {}
    for f in p.funcs.values():
        for i in f.calls:
            for t in p.callees(i) or (): out.setdefault(t, []).append((f, i))
    return out


class Walk(sym.VecSym):
    """follows one counter object; P.data: gen = increments so far, next = first value not used yet, lanes = staged copies"""
    forks = 2
    MAXSTEPS = 60000

    def __init__(self, rule, obj, top):
        super().__init__(rule.p, rule.ex)
        self.r = rule; self.obj = obj; self.top = top; self.used = 0; self.deltas = set(); self.bad = {}; self.blocks = 0

    def err(self, key, i, msg):
        self.bad.setdefault(key, (i.where if i is not None else self.top.short, msg))

    def isobj(self, a):
        while a[0] in ("el", "off"):
            if a == self.obj: return True
            a = a[1]
        return a == self.obj

    def word(self, a):
        """element of the counter an address names"""
        if a == self.obj: return I(0)
        if a[0] == "el" and a[1] == self.obj: return a[2]
        if a[0] == "off" and a[1] == self.obj: return I(a[2])
        return None

    # --- events
    def stage(self, P, w, dst, off):
        if off[0] != "i": off = ("fresh", "o", len(P.data))
        ln = dict(P.data.get(("ln", dst), {}))
        ln[(w, off)] = P.data.get("gen", 0); P.data[("ln", dst)] = ln

    def use(self, P, gens, i, what):
        self.used += 1
        nx = P.data.get("next", 0)
        for g in gens:
            if g < nx: self.err("reuse", i, f"gives one counter value to {what} twice: it is not incremented in between"); break
            if g > nx: self.err("skip", i, f"increments its counter more than once for one block ({what})"); break
            nx += 1
        P.data["next"] = max(nx, max(gens) + 1); P.data["uses"] = P.data.get("uses", 0) + len(gens)

    def clean(self, P, i, where):
        if P.data.get("gen", 0) < P.data.get("next", 0): self.err("last", i, f"does not increment its counter after the last block ({where}): the next one uses the same value again")
        elif P.data.get("gen", 0) > P.data.get("next", 0): self.err("skip", i, f"increments its counter more often than it uses it ({where})")

    # --- hooks
    def inc(self, P, i, a):
        if self.isobj(a): P.data["gen"] = P.data.get("gen", 0) + 1; return True
        return False

    def call(self, P, f, i, ts, args):
        g = one(self.p, i)
        mine = [k for k, a in enumerate(args) if isinstance(a, tuple) and self.isobj(a)]
        if g is not None:
            if g.cls == TOOLS and g.base_nm in INC and args and self.inc(P, i, args[0]): return [(P, None)]
            if g.cls == TOOLS and g.base_nm in ADD and mine: return [(P, None)]
            if g.cls == "CEX::Tools::MemoryTools" and re.fullmatch(r"Copy|COPY\d+", g.base_nm) and len(args) >= 4:
                w = self.word(args[0]) if 0 in mine else None
                if w is not None: self.stage(P, add(w, args[1]), args[2], args[3]); return [(P, None)]
                if 2 in mine or 0 not in mine: return [(P, None)]
            if g.cls.startswith("std::") or not g.in_cex:
                n = i.callee if isinstance(i.callee, str) else ""
                if "llvm.memcpy" in n or "memcpy" in g.base_nm:
                    w = self.word(args[1])
                    if w is not None:
                        d = args[0]; o = I(0)
                        if d[0] == "el": d, o = d[1], d[2]
                        self.stage(P, w, d, o); return [(P, None)]
                    if not mine: return [(P, None)]
                r = self.std(P, f, i, g, args)
                if r is not None: return r
                if g.cls.startswith("std::array"):
                    if g.base_nm in ("operator[]", "at"): return [(P, ("el", args[0], args[1]))]
                    if g.base_nm in ("data", "begin"): return [(P, ("el", args[0], I(0)))]
                return [(P, None)] if i.raw[3] == "void" else None
        if not mine:
            st = [a for a in args if isinstance(a, tuple) and ("ln", a) in P.data and P.data[("ln", a)]]
            if not st: return None
            if g is not None and self.helper(g): return None
            for a in st:
                ln = P.data[("ln", a)]
                words = sorted({w for w, _ in ln}, key=str); per = []
                for w in words:
                    xs = sorted(((o, n) for (v, o), n in ln.items() if v == w), key=lambda t: t[0][1] if t[0][0] == "i" else 0)
                    per.append([n for _, n in xs])
                if any(x != per[0] for x in per): self.err("lanes", i, f"puts parts of different counter values into the same block of a wide call: {per}")
                elif per[0] != sorted(per[0]): self.err("order", i, f"stages its counter values out of order {per[0]}")
                else: self.use(P, per[0], i, g.base_nm if g is not None else self.p.vname(i) or "a block function")
                P.data[("ln", a)] = {}
            return None
        # the counter itself is handed over
        if g is not None and (self.helper(g) or g.name in self.r.loops): return None
        if g is not None and g.cls.startswith("std::"): return None
        self.use(P, [P.data.get("gen", 0)], i, g.base_nm if g is not None else (self.p.vname(i) or "a block function").split("::")[-1])
        if i.id >= 0: return None
        return [(P, None)]

    def helper(self, g): return g.name in self.r.touch or g.name in self.r.stagers

    def inline(self, g, args, P): return self.helper(g)

    def load(self, P, a):
        w = self.word(a) if self.isobj(a) else None
        if w is not None: return ("ctrw", w, P.data.get("gen", 0))
        return None

    def store(self, P, a, v, f, i):
        if v and v[0] == "ctrw" and a[0] in ("el", "off"):
            self.stage(P, v[1], a[1], a[2] if a[0] == "el" else I(a[2])); return True
        return False

    def enter(self, P, f, bi, pred, env):
        if f is not self.top or bi not in f.heads: return
        l = [l for l in f.loops if l["h"] == bi][0]
        phis = {i.id: env[i.id] for i in f.blocks[bi] if i.op == "phi" and i.id in env}
        b = l["bl"]
        if l["bt"].isdigit(): return                     # a loop with a constant number of turns is walked as written
        if any(incs_in(self.r, f, x) for x in b): self.clean(P, f.blocks[bi][0], "at the loop")
        old = P.data.get(("h", bi))
        if old is not None:
            n = P.data.get("uses", 0) - old[1]
            if n > 0:
                ds = {d[1] for k, v in phis.items() if k in old[0] for d in (add(v, old[0][k], -1),) if d[0] == "i" and d[1] > 0}
                if ds: self.deltas.add((bi, n, tuple(sorted(ds))))
        P.data[("h", bi)] = (phis, P.data.get("uses", 0))


def incs_in(rule, f, b):
    return any(i.is_call and (one(rule.p, i) is not None and (one(rule.p, i).name in rule.touch or one(rule.p, i).base_nm in INC and one(rule.p, i).cls == TOOLS)) for i in f.blocks[b])


class Rule:
    def __init__(self, ctx):
        self.ctx = ctx; self.p, self.ex = ctx.p, ctx.ex
        self.touch = set(); self.stagers = set(); self.loops = set()


def run_C22(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("In each function that increments a counter, on every path (each loop taken zero times, once and on) the values given to block functions - directly, or staged in lanes of a wide call - are "
                "the consecutive values c, c+1, ..., one per block of output, and the counter is past the last one when the function returns. The counter handed to such a function is the one in the "
                "state, or a worker's own that was advanced in the same byte order. The increment and increase functions add with carry over the whole counter.")
    ctx.assume = ["the counter of one key and nonce does not run through its whole range", "the wide block functions give lane j what the single one gives", "the segments of a parallel section (C15)"]
    R = Rule(ctx)
    cl = callers(p)
    roots = sorted({f.name for f in p.funcs.values() if f.in_cex and f.cls != TOOLS and any(True for _ in incs(p, f))})
    if not roots: raise Broken("no counter increments found")
    # small functions that only copy what they are given
    for f in p.funcs.values():
        if f.in_cex and len(f.blocks) <= 8 and f.calls and not f.cls.startswith("CEX::Tools") and f.base_nm not in ("operator()",) and \
           all((one(p, i) is not None and (one(p, i).cls.startswith("std::") or one(p, i).cls == "CEX::Tools::MemoryTools" and re.fullmatch(r"Copy|COPY\d+", one(p, i).base_nm))) for i in f.calls) and \
           any(one(p, i).cls == "CEX::Tools::MemoryTools" for i in f.calls): R.stagers.add(f.name)
    # a helper that increments a parameter of its own is followed into
    todo = list(roots); seen = set(); gens = {}
    while todo:
        n = todo.pop(0)
        if n in seen: continue
        seen.add(n); f = p.funcs[n]
        for obj in sorted({counter_of(ex, f, i) for i, _ in all_incs(R, f)}, key=str):
            w = Walk(R, obj, f)
            outs = w.run(f, [("arg", k) for k in range(f.nargs)])
            ends = [P for k, P, _ in outs if k == "ret"]
            if not ends: raise Broken(f"{short(f)} has no path that returns")
            staged = any(k[0] == "ln" and v and root(k[1])[0] == "arg" for P in ends for k, v in P.data.items() if isinstance(k, tuple))
            if not w.used and (root(obj)[0] == "arg" and (f.cls == TOOLS or staged or all(not P.data.get("next") for P in ends))) and helper_like(f, obj, cl):
                # a wrapper: its callers are judged
                R.touch.add(n)
                for g, _ in cl.get(n, []):
                    if g.name in seen and g.name in roots: seen.discard(g.name); gens.pop(g.name, None)
                    todo.append(g.name)
                continue
            gens.setdefault(n, {})[obj] = (w, ends)
    for n, os in sorted(gens.items()):
        f = p.funcs[n]
        for obj, (w, ends) in os.items():
            ctx.count("counters"); ctx.count("paths", len(ends)); ctx.count("block calls", w.used); ctx.sample(f"{short(f)}: {show(obj)}")
            for P in ends: w.clean(P, None, "at its end")
            for k, (wh, msg) in w.bad.items(): ctx.report(f"C22:{short(f)}:{k}", wh, f"{short(f)} {msg}")
            if w.deltas and not w.bad:
                cand = None
                for bi, m, ds in w.deltas:
                    s = {d // m for d in ds if d % m == 0}
                    cand = s if cand is None else cand & s
                ctx.count("loop steps", len(w.deltas))
                if not cand: ctx.report(f"C22:{short(f)}:step", f.where if hasattr(f, "where") else f.short, f"{short(f)}: its loops do not use one counter value per block of output: {sorted((m, ds) for _, m, ds in w.deltas)}")
    carried(ctx, R, gens, cl)
    helpers(ctx)
    ctx.floor("counters", 12); ctx.floor("block calls", 20); ctx.floor("callers", 15); ctx.floor("helpers", 5)


def all_incs(R, f):
    for i in f.calls:
        g = one(R.p, i)
        if g is not None and (g.cls == TOOLS and g.base_nm in INC): yield i, g
        elif g is not None and g.name in R.touch: yield i, g


def counter_of(ex, f, i):
    g = i
    for a in i.args:
        e = ex.val(f, a)
        if e[0] not in ("i",): return e
    return ex.val(f, i.args[0])


def helper_like(f, obj, cl): return root(obj)[0] == "arg" and bool(cl.get(f.name))


# ------------------------------------------------------------------ who hands over which counter
def carried(ctx, R, gens, cl):
    p, ex = ctx.p, ctx.ex
    fam = {}
    for n, os in gens.items():
        f = p.funcs[n]
        for i, g in all_incs(R, f):
            h = g
            while h.name in R.touch: h = next(x for _, x in all_incs(R, h))
            fam.setdefault(n, set()).add(INC[h.base_nm])
        for obj in os:
            if obj[0] != "arg": continue
            k = obj[1]
            for c, i in cl.get(n, []):
                if c.name == n: continue
                a = ex.val(c, i.args[k]); ctx.count("callers")
                r = root(a)
                if r[0] == "arg" and a != r or r[0] == "arg" and a[0] == "arg": continue
                adds = [(j, g) for j, g in incs(p, c, ADD) if len(j.args) >= 2 and ex.val(c, j.args[1 if len(j.args) > 2 else 0]) == a]
                if not adds:
                    ctx.report(f"C22:{short(c)}:copy", i.where, f"{short(c)} gives {short(f)} a copy of the counter, the advance is lost"); continue
                for j, g in adds:
                    ctx.count("advanced counters")
                    if {ADD[g.base_nm]} != fam[n]: ctx.report(f"C22:{short(c)}:order", j.where, f"{short(c)} advances its counter as {ADD[g.base_nm]}, {short(f)} increments it as {sorted(fam[n])[0]}")


# ------------------------------------------------------------------ the functions that add
def helpers(ctx):
    p, ex = ctx.p, ctx.ex
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if f.cls != TOOLS or not f.blocks or f.base_nm not in INC and f.base_nm not in ADD: continue
        inc = f.base_nm in INC
        try:
            if f.base_nm.endswith("W"): bad = digits.check_words(p, ex, f, inc)
            else: bad = digits.check_bytes(p, ex, f, inc, f.base_nm.startswith("Be"))
        except digits.Unknown as e:
            ctx.count("helpers of unknown shape"); ctx.notes.append(f"{f.short}: {e}"); continue
        ctx.count("helpers")
        if bad: ctx.report(f"C22:{f.base_nm}/{len(f.sty) - 1}:adds", f"{f.relfile}:{min([i.line for i in f.insts if i.line] or [0])}", f"IntegerTools::{f.base_nm} {bad}")
