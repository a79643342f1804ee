"""Front end: compiles every built CEX source of the repository under analysis to LLVM IR with the
real build's flags (at -O0, with full debug info and vtable type metadata), links one whole-program
module and prints it with irdump.  Per-unit results are cached by the content of every file the unit read."""
import hashlib, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("CEX_REPO", "/repo")
BUILD = os.environ.get("CEX_BUILD", os.path.join(VERIF, "build"))
CLANGXX = "/usr/bin/clang++"
LLVM = "/usr/lib/llvm-18/bin/"
# sources the project does not build (same list as the project's build here; none is in the .vcxproj files)
STALE = {"ACSTest", "DLTMK5Q8380417N256", "DLTMK6Q8380417N256", "SocketReceiver", "SocketSender"}
FILESTREAM_SED = (r"static_cast<int32_t>(Access) | static_cast<int32_t>(Mode))",
                  r"static_cast<std::ios_base::openmode>(static_cast<int32_t>(Access) | static_cast<int32_t>(Mode)))")
SHIMS = {"IKDF.h": "IKdf.h", "XMSSCore.h": "XmssCore.h", "XMSSUtils.h": "XmssUtils.h"}


class Broken(Exception):
    """the analysis itself cannot give a verdict (error exit, neither pass nor violation)"""


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def base_flags(work):
    return ("--target=x86_64-w64-mingw32 -std=c++17 -w -mavx2 -maes -mpclmul -mrdrnd -mrdseed -msha -mbmi2"
            " -fno-strict-aliasing -fwrapv -femulated-tls -fcxx-exceptions -mxsave -D_M_X64=100 -D_M_AMD64=100 -DNDEBUG"
            " -D_CONSOLE -DUNICODE -D_UNICODE -fdelayed-template-parsing -fgnuc-version=4.2.1 -fms-extensions"
            " -fms-compatibility -fms-compatibility-version=19.30 -D__EXCEPTIONS=1 -D__STDC__=1").split() + [
        "-ivfsoverlay", f"{work}/overlay.yaml", "-include", f"{work}/prelude.h", f"-I{work}/inc"]


def mtime_free_write(path, text):
    if not os.path.exists(path) or open(path).read() != text:
        tmp = f"{path}.{os.getpid()}"
        open(tmp, "w").write(text)
        os.replace(tmp, path)


def sources():
    d = f"{REPO}/CEX"
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(".cpp") and f[:-4] not in STALE:
            out.append(f[:-4])
    if len(out) < 170:
        raise Broken(f"only {len(out)} CEX sources found")
    return out


def prepare():
    tag = hashlib.sha1(REPO.encode()).hexdigest()[:8]
    work = f"{BUILD}/cfg-{tag}"
    os.makedirs(f"{work}/inc/CEX", exist_ok=True)
    src = f"{VERIF}/compat"
    for f in os.listdir(f"{src}/inc"):
        if f.endswith(".h") and f not in SHIMS:
            mtime_free_write(f"{work}/inc/{f}", open(f"{src}/inc/{f}").read())
    for f, real in SHIMS.items():
        for p in (f"{work}/inc/{f}", f"{work}/inc/CEX/{f}"):
            mtime_free_write(p, f'#include "{REPO}/CEX/{real}"\n')
    mtime_free_write(f"{work}/prelude.h", open(f"{src}/prelude.h").read().replace("/repo/", REPO + "/"))
    fs = open(f"{REPO}/CEX/FileStream.cpp", encoding="utf-8", errors="surrogateescape").read()
    p = f"{work}/FileStream.cpp"
    t = fs.replace(*FILESTREAM_SED)
    if not os.path.exists(p) or open(p, encoding="utf-8", errors="surrogateescape").read() != t:
        open(p, "w", encoding="utf-8", errors="surrogateescape").write(t)
    mtime_free_write(f"{work}/overlay.yaml", json.dumps({"version": 0, "use-external-names": False, "roots": [
        {"type": "file", "name": f"{REPO}/CEX/FileStream.cpp", "external-contents": p}]}))
    return work


_sha = {}


def sha(path):
    h = _sha.get(path)
    if h is None:
        try:
            h = hashlib.sha1(open(path, "rb").read()).hexdigest()
        except OSError:
            h = "missing"
        _sha[path] = h
    return h


INSTANCES = "instances"         # our own unit: uses of header-only helpers; when it does not compile it is left out


def compile_unit(work, stem, flags, cache, key):
    """returns (bitcode path, error)"""
    src = f"{VERIF}/compat/{stem}.cpp" if stem == INSTANCES else f"{REPO}/CEX/{stem}.cpp"
    if stem == INSTANCES: flags = flags + [f"-I{REPO}/CEX"]
    meta = f"{cache}/{stem}.{key}.json"
    out = f"{cache}/{stem}.{key}.bc"
    if os.path.exists(meta) and os.path.exists(out):
        deps = json.load(open(meta))
        if all(sha(p) == h for p, h in deps.items()):
            return out, None
    tmp = f"{out}.{os.getpid()}.tmp"
    dep = f"{tmp}.d"
    r = run([CLANGXX] + flags + ["-emit-llvm", "-MD", "-MF", dep, "-c", src, "-o", tmp])
    if r.returncode != 0:
        return None, r.stdout
    txt = open(dep).read().replace("\\\n", " ")
    files = txt.split(":", 1)[1].split() if not txt.startswith("/") else txt.split(": ", 1)[1].split()
    deps = {}
    for f in files:
        f = f.replace("\\ ", " ")
        if f.startswith("/usr/"):
            continue
        deps[f] = sha(f)
    if stem == "FileStream":
        deps[f"{work}/FileStream.cpp"] = sha(f"{work}/FileStream.cpp")
    os.replace(tmp, out)
    os.unlink(dep)
    open(meta + ".tmp", "w").write(json.dumps(deps))
    os.replace(meta + ".tmp", meta)
    return out, None


def build_tool(name):
    """compiles tools/<name>.cpp against LLVM 18"""
    os.makedirs(BUILD, exist_ok=True)
    src = f"{VERIF}/tools/{name}.cpp"
    out = f"{BUILD}/{name}-{sha(src)[:12]}"
    if os.path.exists(out):
        return out
    cfg = run([LLVM + "llvm-config", "--cxxflags"]).stdout.split()
    cfg = [c for c in cfg if not c.startswith("-std=") and c != "-fno-exceptions"]
    tmp = f"{out}.{os.getpid()}"
    r = run([CLANGXX, "-std=c++17", "-O1", "-w", "-fno-rtti"] + cfg + [src, "-o", tmp, "-L/usr/lib/llvm-18/lib", "-lLLVM-18"])
    if r.returncode != 0:
        raise Broken(f"cannot build {name}: {r.stdout[-2000:]}")
    os.replace(tmp, out)
    return out


def ir_jsonl(opt="-O0"):
    """paths of the JSON-lines dumps, one per unit"""
    tool = build_tool("irdump")
    work = prepare()
    cache = f"{BUILD}/units"
    os.makedirs(cache, exist_ok=True)
    extra = [opt, "-g", "-fstandalone-debug", "-flto", "-fwhole-program-vtables", "-Xclang", "-disable-O0-optnone"] if opt == "-O0" else [opt, "-gline-tables-only"]
    flags = base_flags(work) + extra
    key = hashlib.sha1((" ".join(flags)).encode()).hexdigest()[:8]
    st = sources() + ([INSTANCES] if opt == "-O0" else [])
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: compile_unit(work, s, flags, cache, key), st))
    if opt == "-O0" and res[-1][1]:
        mtime_free_write(f"{work}/instances.err", res[-1][1]); st, res = st[:-1], res[:-1]
    bad = [(s, e) for s, (o, e) in zip(st, res) if e]
    if bad:
        raise Broken("does not compile: " + bad[0][0] + "\n" + bad[0][1][-1500:])
    units = [(s, o) for s, (o, e) in zip(st, res)]
    if opt != "-O0":
        return units
    tk = os.path.basename(tool).split("-")[1]

    def dump(u):
        s, o = u
        out = f"{o[:-3]}.{tk}.jsonl"
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(o):
            tmp = f"{out}.{os.getpid()}"
            r = run([tool, o, tmp, s])
            if r.returncode != 0:
                return None, "irdump " + s + ": " + r.stdout[-1500:]
            os.replace(tmp, out)
        return out, None
    with ThreadPoolExecutor(8) as ex:
        d = list(ex.map(dump, units))
    for o, e in d:
        if e:
            raise Broken(e)
    return [o for o, _ in d]


if __name__ == "__main__":
    t = time.time()
    p = ir_jsonl()
    print(len(p), sum(os.path.getsize(x) for x in p) >> 20, "MB", round(time.time() - t, 1), "s")
