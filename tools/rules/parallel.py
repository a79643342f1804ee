"""C15 parallel sections: workers touch disjoint memory, tile the work exactly, and their failures reach the caller."""
import ir, sym
from ir import I, add, show, mentions, root
from effects import Effects, Q
from frontend import Broken

IX = ("ix",)
OPAQUE = ("LockingAllocator",)


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


def stores_of(f): return [i for i in f.insts if i.op == "store"]


def run_C15(ctx):
    p, ex = ctx.p, ctx.ex
    ctx.rule = ("At each ParallelFor call, every write a worker makes - directly or through any function it calls - goes to memory it allocated itself, to element i of an array, to the segment of a "
                "container that starts at base + i*S where S is the length handed to the callee, or is made by the one worker whose index equals a fixed value on an object no worker touches "
                "otherwise. S is the whole divided by the number of workers, the work behind the section starts at S times that number, counters advance by i*S blocks. ParallelFor starts each "
                "index once, waits for every worker and rethrows.")
    ctx.assume = ["the memory allocator is thread safe", "input and output arrays do not overlap", "a function given a container, an offset and a length writes only that range (C05)"]
    pf = [f for f in p.funcs.values() if f.base_nm == "ParallelFor" and f.cls == "CEX::Tools::ParallelTools"]
    if len(pf) != 1: raise Broken("ParallelTools::ParallelFor not found")
    opaque = {f.name for f in p.funcs.values() if any(o in f.cls for o in OPAQUE)}
    W = Effects(p, ex, opaque=opaque); R = Effects(p, ex, reads=True, opaque=opaque)
    launcher(ctx, pf[0])
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        for i in f.calls:
            if p.callees(i) != [pf[0].name]: continue
            ctx.count("parallel sections"); ctx.sample(f"{short(f)}:{i.line}")
            section(ctx, f, i, W, R)
    ctx.count("functions summarised", len(W.visited))
    ctx.floor("parallel sections", 30); ctx.floor("segments", 10); ctx.floor("elements", 20); ctx.floor("single writers", 10)


# ------------------------------------------------------------------ ParallelFor itself
def closure(p, ex, f, obj):
    """captured values of a closure object built in f: offset -> value"""
    cap = {}
    for s in stores_of(f):
        a = ex.val(f, s.raw[5]); o = 0
        while a[0] in ("off", "fld"):
            if a[0] == "fld": break
            o += a[2]; a = a[1]
        if a == obj: cap[o] = ex.val(f, s.raw[4])
        elif a[0] == "fld" and a[1] == obj: cap[a[2]] = ex.val(f, s.raw[4])
    return cap


def bodies(p, n, want=lambda g: g.in_cex and g.base_nm == "operator()"):
    """functions of the library that a std:: wrapper ends up calling"""
    seen = set(); todo = [n]; out = []
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x); g = p.funcs.get(x)
        if g is None: continue
        if want(g): out.append(g); continue
        if g.in_cex and not g.cls.startswith("std"): continue
        for i in g.insts:
            if i.is_call: todo += p.callees(i) or []
            todo += [v[2:] for v in ir.operands(i) if isinstance(v, str) and v.startswith("g:")]
    return out


def launcher(ctx, f):
    p, ex = ctx.p, ctx.ex
    bad = lambda k, m, w=None: ctx.report(f"C15:ParallelFor:{k}", w or f"{f.relfile}:{f.line}", "ParallelFor " + m)
    def named(i, s): return any(s in (p.funcs[t].base_nm if t in p.funcs else p.dem(t)) for t in p.callees(i) or [])
    go = [i for i in f.calls if any("async" in (p.funcs[t].base_nm if t in p.funcs else t) for t in p.callees(i) or [])]
    if len(go) != 1: return bad("launch", f"starts workers at {len(go)} places, expected one std::async")
    g = go[0]
    ob = None; index = set()
    for a in g.args:
        v = ex.val(f, a)
        if v[0] == "loc":
            c = closure(p, ex, f, v)
            if c: ob = v; index |= set(c.values())
    head = [i for b in f.blocks for i in b if i.op == "phi" and i.raw[3] == "i64"]
    ok = False
    for ph in head:
        e = ("v", f.name, ph.id)
        if e not in index: continue
        ins = [ex.val(f, v) for v, _ in ph.raw[4]]
        if ("arg", 0) in ins and add(e, I(1)) in ins and len(set(ins)) == 2:
            for i in f.insts:
                if i.op == "icmp" and {ex.val(f, i.raw[4]), ex.val(f, i.raw[5])} == {e, ("arg", 1)}: ok = True
    if not ok: bad("range", "does not start one worker for each index from From up to To", g.where)
    ws = bodies(p, (p.callees(g) or [""])[0])
    n = 0
    for w in ws:
        for i in w.calls:
            if any("function" in (p.funcs[t].cls if t in p.funcs else t) and "operator()" in (p.funcs[t].base_nm if t in p.funcs else "") for t in p.callees(i) or []): n += 1
    if len(ws) != 1 or n != 1: bad("call", "does not call the function once in each worker", g.where)
    gets = [i for i in f.calls if any((p.funcs[t].base_nm if t in p.funcs else "") == "get" and "future" in p.funcs[t].cls for t in p.callees(i) or [])]
    inloop = [i for i in gets if i.bb in f.reach(f.succs(i.bb)[0]) or any(i.bb in f.reach(s) for s in f.succs(i.bb))]
    if not inloop: bad("failure", "does not take the result of every worker: an exception thrown by a worker is lost")
    ctx.count("launcher checks", 3)


# ------------------------------------------------------------------ one parallel section
def coeff(e):
    """(S, rest) with e = i*S + rest, or None"""
    ts = [(t, c) for t, c in e[2]] if e[0] == "lin" else [(e, 1)] if e[0] != "i" else []
    S = None; rest = I(e[1]) if e[0] in ("lin", "i") else I(0)
    for t, c in ts:
        if not mentions(t, lambda x: x == IX): rest = add(rest, ir.mul(I(c), t)); continue
        s = None
        if t == IX: s = I(c)
        elif t[0] == "mul":
            a, b = t[1], t[2]
            if a == IX: s = ir.mul(I(c), b)
            elif b == IX: s = ir.mul(I(c), a)
            elif not mentions(b, lambda x: x == IX):
                z = coeff(a)
                if z and z[1] == I(0): s = ir.mul(ir.mul(I(c), z[0]), b)
            elif not mentions(a, lambda x: x == IX):
                z = coeff(b)
                if z and z[1] == I(0): s = ir.mul(ir.mul(I(c), z[0]), a)
        if s is None or S is not None and S != s: return None
        S = s
    return (S, rest) if S is not None else None


def measure(a, S):
    """a is S, or S counted in blocks"""
    if a == S: return True
    if S[0] == "lin" and S[1] == 0 and len(S[2]) == 1 and S[2][0][0] == a: return True
    return a[0] in ("div", "lshr") and a[1] == S and a[2][0] == "i"


def below(c, K, x, S):
    """a loop condition that keeps x below S"""
    if c.op != "icmp": return False
    a, b, k = K(c.raw[4]), K(c.raw[5]), c.raw[3]
    if b == x: a, b, k = b, a, sym.FLIP.get(k, k)
    return a == x and b == S and k in ("ult", "slt", "ne")


def guarded(f, bb, K):
    """the values k with: block bb is entered only in the worker whose index is k"""
    out = []
    for b in f.blocks:
        t = b[-1] if b else None
        if t is None or t.op != "br" or t.raw[3] is None: continue
        c = K(t.raw[3])
        neg = False
        while c[0] == "not": c, neg = c[1], not neg
        if c[0] != "cmp" or c[1] not in ("eq", "ne"): continue
        if IX in (c[2], c[3]): o = c[3] if c[2] == IX else c[2]
        else:
            d = add(c[2], c[3], -1); z = coeff(d)
            if z is None or z[0] not in (I(1), I(-1)): continue
            o = z[1] if z[0] == I(-1) else ir.mul(I(-1), z[1])
        if mentions(o, lambda x: x == IX or x[0] == "v"): continue
        tr = (c[1] == "eq") != neg
        ss = f.succs(t.bb)
        if len(ss) != 2 or ss[0] == ss[1]: continue
        edge = ss[0] if tr else ss[1]
        # without that edge bb is unreachable
        seen = set(); todo = [0]
        while todo:
            x = todo.pop()
            if x in seen: continue
            seen.add(x)
            for s in f.succs(x):
                if x == t.bb and s == edge: continue
                todo.append(s)
        if bb not in seen: out.append(o)
    return out


def strip(e):
    """the object, indices dropped"""
    while e[0] in ("el", "off"): e = e[1]
    if e[0] in ("fld", "ld", "up"): return (e[0], strip(e[1])) + e[2:]
    return e


def section(ctx, f, site, W, R):
    p, ex = ctx.p, ctx.ex
    at = f"{short(f)}"
    fo = ex.val(f, site.args[2])
    ctor = [j for j in f.calls if j.args and ex.val(f, j.args[0]) == fo and any("function" in (p.funcs[t].cls if t in p.funcs else "") and (p.funcs[t].base_nm if t in p.funcs else "") == "function" for t in p.callees(j) or [])]
    ws = [w for j in ctor for w in bodies(p, p.callees(j)[0])]
    if len(ws) != 1: raise Broken(f"{site.where}: the worker of this parallel section was not found")
    w = ws[0]
    cap = closure(p, ex, f, ex.val(f, ctor[0].args[1])) if len(ctor[0].args) > 1 else {}
    CL = ("cl",)
    m2 = {("ld", ("off", CL, o)) if isinstance(o, int) and o else ("ld", CL) if o == 0 else ("ld", ("fld", CL, o)): v for o, v in cap.items()}

    def T(e, env): return sym.subst(ex.substitute(e, env), m2)
    line = f"{short(f)}:{ordinal(ctx, f, site)}"
    bad = lambda k, msg, wh: ctx.report(f"C15:{line}:{k}", wh, f"a worker of {short(f)} {msg}")
    degree = ex.val(f, site.args[1])
    if ex.val(f, site.args[0]) != I(0): ctx.report(f"C15:{line}:from", site.where, f"{short(f)} starts its workers at index {show(ex.val(f, site.args[0]))}, the first segment is not processed")
    segs = []; once = []; touched = []; frames = []

    def walk(g, env, guards, depth):
        """problems of one function run by the worker; env: its arguments in terms of the section and the worker's index"""
        K = lambda v: T(ex.val(g, v), env)
        G = lambda i: guards + guarded(g, i.bb, K)
        frames.append((g, K)); found = []
        for i in g.insts:
            acc = []; reads = []
            if i.op == "store":
                a = ex.val(g, i.raw[5])
                if root(a)[0] in ("arg", "g"): acc = [(T(a, env), None, None, ())]
                else: acc = [(T(o, env), None, None, ()) for o in W.objects(g, a)]
            elif i.op == "load":
                for o in R.objects(g, ex.val(g, i.raw[4])): touched.append((strip(T(o, env)), i, G(i)))
            elif i.is_call:
                for t in p.callees(i) or []:
                    h = p.funcs.get(t)
                    if h is None or t in W.opaque: continue
                    for S, kinds in ((W, "w"), (R, "r")):
                        for (kind, e), (wh, ch) in S.of(h).items():
                            if kind != kinds: continue
                            r = root(e)
                            if r[0] == "g":
                                if kind == "w": acc.append((e, None, h, (wh,) + ch))
                                continue
                            if r[1] >= len(i.args): continue
                            a = ex.substitute(e, [ex.val(g, x) for x in i.args])
                            if root(a)[0] in ("loc", "new") and not mentions(a, lambda x: x[0] in ("ld", "up")): continue
                            for o in S.objects(g, a):
                                if kind == "w": acc.append((T(o, env), r[1], h, (wh,) + ch))
                                else: reads.append((strip(T(o, env)), i, G(i)))
            into = None
            for o, k, h, ch in acc:
                if root(o)[0] == "loc" and root(o)[1] != f.name: continue
                v = classify(g, i, K, o, k, h, G(i))
                if v is None: continue
                if h is not None and h.in_cex and depth < 3 and not h.cls.startswith("std::") and any(mentions(K(x), lambda y: y == IX) for x in i.args) and v[0] != "global": into = h; break
                via = f" (through {h.base_nm} at {ch[0]})" if h is not None else ""
                found.append((v[0], v[1] + (via if v[0] == "shared" else ""), i.where))
            if into is not None:
                sub = [h for h in (p.funcs.get(t) for t in p.callees(i) or []) if h is not None]
                first = None; keep = (len(segs), len(once), len(touched), len(frames))
                probs = walk(sub[0], [K(x) for x in i.args], G(i), depth + 1) if len(sub) == 1 else [("shared", "calls several functions", i.where)]
                if probs:
                    # report it where the worker itself makes the call
                    for lst, n in zip((segs, once, touched, frames), keep): del lst[n:]
                    for o, k, h, ch in acc:
                        v = classify(g, i, K, o, k, h, G(i))
                        if v is not None: found.append((v[0], v[1] + (f" (through {h.base_nm} at {ch[0]})" if h is not None and v[0] == "shared" else ""), i.where))
                    touched.extend(reads)
            else: touched.extend(reads)
        return found

    def classify(g, j, K, o, k, h, gs):
        if root(o)[0] == "g":
            n = root(o)[1]
            return None if "guard" in n or n.startswith("_ZGV") else ("global", f"writes the global {n.split('@')[0]}")
        ctx.count("writes classified")
        # element i of an array
        e = o
        while e[0] in ("el", "fld", "off", "ld", "up"):
            if e[0] == "el" and e[2] != Q:
                z = coeff(e[2])
                if z and z[0] in (I(1), I(-1)) and not mentions(z[1], lambda x: x == Q or x[0] == "v"): ctx.count("elements"); return None
            e = e[1]
        if gs: once.append((strip(o), gs[0], j)); ctx.count("single writers"); return None
        # a segment
        if h is not None and k is not None:
            A = [K(x) for x in j.args]
            z = coeff(A[k + 1]) if k + 1 < len(A) else None
            if z and strip(o) == strip(A[k]):
                S = z[0]
                if any(measure(A[n], S) for n in range(len(A)) if n != k + 1):
                    segs.append((strip(o), S, z[1], j)); ctx.count("segments"); return None
                return ("length", f"writes segments that start {show(S)} apart, but {h.base_nm} is not given that length")
        if h is None and o[0] == "el":
            z = coeff(o[2])
            if z:
                un = list(atoms(z[1]))
                if all(any(below(c, K, x, z[0]) for c in g.insts) for x in un):
                    segs.append((strip(o), z[0], None, j)); ctx.count("segments"); return None
                return ("length", f"writes outside the segment that starts at {show(z[1])}")
        return ("shared", f"writes {show(o)}, which all workers share")

    for k, msg, wh in walk(w, [CL, IX], [], 0): bad(k, msg, wh)
    # single writers: nobody else touches the object
    for o, k, j in once:
        for t, i, gs in touched:
            if t == o and k not in gs:
                bad("read", f"uses {show(o)} while another worker writes it", i.where); break
    # tiling
    for o, S, base, j in segs:
        q = S[2][0][0] if S[0] == "lin" and S[1] == 0 and len(S[2]) == 1 else S        # whole blocks of a share
        if q[0] == "div" and q[2] != degree or q[0] not in ("div", "i"):
            ctx.report(f"C15:{line}:tile", j.where, f"{short(f)} splits the work into segments of {show(S)} for {show(degree)} workers"); break
    tail(ctx, f, site, line, segs, degree, W)
    for g, K in frames: counters(ctx, f, g, line, segs, degree, K, once, site)


def atoms(e):
    if not isinstance(e, tuple): return
    if e and e[0] == "v": yield e; return
    for x in e:
        if isinstance(x, tuple): yield from atoms(x)


def ordinal(ctx, f, site):
    pf = ctx.p.callees(site)
    return [i for i in f.calls if ctx.p.callees(i) == pf].index(site) + 1


def first(ex, f, e):
    """loop counters at their initial value"""
    m = {}
    for x in atoms(e):
        i = f.defs.get(x[2])
        if i is not None and i.op == "phi":
            ins = [v for v in (ex.val(f, v) for v, _ in i.raw[4]) if not mentions(v, lambda y: y[0] == "v")]
            if len(ins) == 1: m[x] = ins[0]
    return sym.subst(e, m) if m else e


def tail(ctx, f, site, line, segs, degree, W):
    """what is processed after the section starts where the last segment ends"""
    p, ex = ctx.p, ctx.ex
    done = {(o, S, base) for o, S, base, j in segs if base is not None and S[0] != "i"}
    after = f.reach(f.succs(site.bb)[0])
    for o, S, base in done:
        end = add(base, ir.mul(S, degree))
        for i in f.insts:
            if i.bb not in after: continue
            idx = None
            if i.op == "store":
                a = ex.val(f, i.raw[5])
                if a[0] == "el" and a[1] == o: idx = a[2]
            elif i.is_call:
                for t in p.callees(i) or []:
                    h = p.funcs.get(t)
                    if h is None: continue
                    ks = {root(e)[1] for (k, e) in W.of(h) if k == "w" and root(e)[0] == "arg"}
                    for k in ks:
                        if k + 1 < len(i.args) and ex.val(f, i.args[k]) == o and dict(h.param_types()).get(k + 1, "").replace("const ", "") == "unsigned long long": idx = ex.val(f, i.args[k + 1])
            if idx is None: continue
            idx = first(ex, f, idx)
            d = add(idx, end, -1)
            ctx.count("work behind a section")
            if mentions(d, lambda x: x[0] in ("arg", "ld", "mul", "div")):
                ctx.report(f"C15:{line}:tail", i.where, f"{short(f)} continues at {show(idx)} after the parallel section, the last segment ends at {show(end)}")


def counters(ctx, f, w, line, segs, degree, K, once, site):
    """a worker's counter is i segments ahead of the shared one; the last worker's final counter is kept"""
    p, ex = ctx.p, ctx.ex
    for i in w.calls:
        fn = [p.funcs[t] for t in p.callees(i) or [] if t in p.funcs]
        if not fn or not fn[0].base_nm.startswith(("BeIncrease", "LeIncrease")) or fn[0].cls != "CEX::Tools::IntegerTools" or len(i.args) < 3: continue
        A = [K(a) for a in i.args]
        if not segs or mentions(strip(A[0]), lambda x: x[0] == "loc" and x[1] == w.name): continue
        ctx.count("thread counters")
        z = coeff(A[2])
        bad = lambda k, m: ctx.report(f"C15:{line}:{k}", i.where, f"a worker of {short(f)} {m}")
        S = segs[0][1]; B = None
        if z and z[1] == I(0):
            for _, s, _, _ in segs:
                if s[0] == "lin" and s[1] == 0 and len(s[2]) == 1 and s[2][0][0] == z[0]: B = s[2][0][1]
                if z[0][0] in ("div", "lshr") and z[0][1] == s and z[0][2][0] == "i": B = z[0][2][1] if z[0][0] == "div" else 1 << z[0][2][1]
        if B is None: bad("counter", f"advances its counter by {show(A[2])}, not by the blocks of the segments before its own"); continue
        mine = ex.val(w, i.args[1])
        use = [j for j in w.calls if j is not i and any(ex.val(w, a) == mine for a in j.args)]
        calls = [(j, p.funcs[t]) for j in use for t in p.callees(j) or [] if t in p.funcs and p.funcs[t].in_cex and any(s[3] is j for s in segs)]
        if not calls: bad("counter", "does not generate its segment with its own counter"); continue
        for j, h in calls:
            ks = [n for n, a in enumerate(j.args) if measure(K(a), S)]
            blk = set()
            for x in h.insts:
                e = ex.val(h, x.id) if x.op in ("urem", "x") or x.op == "urem" else None
                if e is not None and e[0] == "rem" and e[2][0] == "i" and e[1] in [("arg", n) for n in ks]: blk.add(e[2][1])
            if blk and min(blk) != B: bad("counter", f"counts blocks of {B} bytes, {h.base_nm} works in blocks of {min(blk)}")
        # the final counter
        src = A[0]
        keep = [(o, k, j) for o, k, j in once if any(ex.val(w, a) == mine for a in j.args)]
        if not keep: bad("final", "does not keep the final counter"); continue
        for o, k, j in keep:
            if k != add(degree, I(-1)): ctx.report(f"C15:{line}:final", j.where, f"the counter kept by {short(f)} is that of worker {show(k)}, the last one is {show(add(degree, I(-1)))}")
            after = f.reach(f.succs(site.bb)[0]) | {site.bb}
            back = any(c.bb in after and any(strip(ex.val(f, a)) == o for a in c.args) and any(strip(ex.val(f, a)) == strip(src) for a in c.args) for c in f.calls)
            if not back: ctx.report(f"C15:{line}:final", j.where, f"{short(f)} does not take over the last worker's counter")
