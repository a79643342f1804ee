"""C06 failures are typed and never swallowed."""
import re
from frontend import Broken

ROOT = "CEX::Exception::CryptoException"
# information gathering: an unavailable system counter is simply left out of the entropy pool
COLLECT = re.compile(r"^CEX::(Tools::SystemTools|Network::.*)$")


def short(f): return (f.cls + "::" + f.base_nm) if f.cls else f.base_nm


def class_of_ti(p, ti):
    """source class of a typeinfo symbol"""
    n = p.dem("_ZTI" + ti.split("_ZTI", 1)[1]) if "_ZTI" in ti else ti
    if n.startswith("_ZTI"):
        m = re.match(r"_ZTIN((?:\d+\w+)+)E$", n)
        parts = []; s = n[5:-1] if n.startswith("_ZTIN") else ""
        while s:
            m = re.match(r"(\d+)", s)
            if not m: return n
            k = int(m.group(1)); s = s[len(m.group(1)):]
            parts.append(s[:k]); s = s[k:]
        return "::".join(parts)
    return n.replace("typeinfo for ", "")


def collector(p, f):
    """code whose whole job is to sample system counters: network callbacks, system statistics, the provider helpers that only they feed"""
    c = f.cls.split("::<")[0]
    if COLLECT.match(c): return True
    return c.startswith("CEX::Provider::") and f.base_nm.endswith("Info")


def run_C06(ctx):
    p = ctx.p
    ctx.rule = ("Every throw expression compiled into the library throws a class derived from CryptoException; every catch handler outside the socket layer and the "
                "system-information collectors leaves only by throwing again (no path from a handler reaches a normal return); a handler that turns an authentication "
                "failure into another error still throws CryptoAuthenticationFailure.")
    ctx.assume = ["exceptions raised by the standard library itself (bad_alloc, length_error) are outside the rule", "noexcept boundaries terminate the process; they are not handlers"]
    for f in sorted(p.funcs.values(), key=lambda f: f.name):
        if not f.in_cex or f.cls.startswith("std::") or f.cls.startswith("__gnu"): continue
        for i in f.calls:
            if i.callee == "g:__cxa_throw":
                ctx.count("throw expressions")
                ti = i.args[1][2:] if isinstance(i.args[1], str) else "?"
                c = class_of_ti(p, ti)
                if not (c == ROOT or p.is_sub(c, ROOT)):
                    ctx.report(f"C06:{short(f)}:type:{c}", i.where, f"{short(f)} throws {c}, which does not derive from CryptoException")
        for i in f.insts:
            if i.op != "lpad" or not i.raw[4]: continue
            r = f.reach(i.bb)
            begin = any(c.op in ("call", "invoke") and c.callee == "g:__cxa_begin_catch" for b in r for c in f.blocks[b])
            if not begin: continue
            ctx.count("catch handlers")
            if collector(p, f): ctx.count("handlers in collectors and sockets (exempt)"); continue
            if any(f.blocks[b][-1].op == "ret" for b in r):
                types = ", ".join(class_of_ti(p, x[2:]) if isinstance(x, str) and x.startswith("g:") else "..." for x in i.raw[4])
                ctx.report(f"C06:{short(f)}:swallow", i.where, f"{short(f)} catches {types} and can return normally from the handler: the failure is swallowed")
            if any(isinstance(x, str) and "CryptoAuthenticationFailure" in x for x in i.raw[4]):
                ctx.count("authentication handlers")
                # the handler selected for this type
                th = {class_of_ti(p, c.args[1][2:]) for b in r for c in f.blocks[b] if c.op in ("call", "invoke") and c.callee == "g:__cxa_throw" and isinstance(c.args[1], str)}
                if th and not any(t.endswith("CryptoAuthenticationFailure") for t in th):
                    ctx.report(f"C06:{short(f)}:authtype", i.where, f"{short(f)} turns an authentication failure into {', '.join(sorted(th))}")
        ctx.count("functions")
    ctx.floor("throw expressions", 500); ctx.floor("catch handlers", 100); ctx.floor("authentication handlers", 4)
