"""Compiles the translation units of the repository to IR and runs the effect analysis (engine/eff.cpp) over the linked program."""
import concurrent.futures as cf, glob, json, os, subprocess
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = [".", "MemSubSystem", "back-end", "back-end/Exu", "back-end/Lsu", "diff", "front-end", "front-end/fifo", "front-end/icache"]
SKIP = {"diff/diff.cpp", "diff/br_oracle.cpp"}   # need the reference processor's headers, which are a submodule that is not in the tree
STUB = {"front-end/icache/ICacheTop.cpp": "stubic"}   # every other unit: stubaxi (declarations of the missing interconnect submodule)

STATS = ["PerfCount", "FrontRuntimeStats"]   # records that only hold statistics


class Broken(Exception):
    pass


def units(repo):
    return [os.path.relpath(f, repo) for d in DIRS for f in sorted(glob.glob(os.path.join(repo, d, "*.cpp"))) if os.path.relpath(f, repo) not in SKIP]


def effects(repo, work, flags, ndebug=True, tag="rel", trace=()):
    def one(u):
        o = os.path.join(work, tag + "_" + u.replace("/", "_") + ".bc")
        fl = [f for f in flags([]) if ndebug or f != "-DNDEBUG"]
        c = ["clang++-18", "-I" + os.path.join(VERIF, "harness", STUB.get(u, "stubaxi")), "-DCONFIG_ICACHE_USE_AXI_MEM_PORT=0"] + fl + ["-c", "-emit-llvm", os.path.join(repo, u), "-o", o]
        r = subprocess.run(c, text=True, capture_output=True)
        return o, r.returncode, r.stderr
    us = units(repo)
    with cf.ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(one, us))
    broken = [u + ": " + r[2][:600] for u, r in zip(us, rs) if r[1]]
    if broken:
        raise Broken("does not compile: " + "; ".join(broken[:3]))
    out = os.path.join(work, tag + "_eff.json")
    r = subprocess.run([os.environ.get("EFF") or os.path.join(VERIF, ".build", "eff")] + [x[0] for x in rs] + ["--out", out] + [y for s in STATS for y in ("--stats", s)] + [y for s in trace for y in ("--trace", s)], text=True, capture_output=True)
    if r.returncode:
        raise Broken("effect analysis: " + r.stderr[-1500:])
    j = json.load(open(out))
    j["units"] = us
    return j


def base(f):
    return f["name"].split("::")[-1].split("<")[0]


def place(repo, f, loc=""):
    return "%s in %s" % ((loc or "%s:%s" % (f["file"], f["line"])).replace(repo + "/", ""), f["name"])


def reach(F, roots, stop=lambda f: False):
    via, q = {s: None for s in roots}, list(roots)
    while q:
        s = q.pop()
        for c, l in F[s]["calls"]:
            if c in F and c not in via and not stop(F[c]):
                via[c] = (s, l)
                q.append(c)
    return via


def chain(F, via, s):
    out = [F[s]["name"]]
    while via[s]:
        s = via[s][0]
        out.append(F[s]["name"])
    return " <- ".join(out[:6])


def demangle(syms):
    syms = sorted(syms)
    if not syms:
        return {}
    r = subprocess.run(["llvm-cxxfilt-18"], input="\n".join(syms), text=True, capture_output=True)
    return dict(zip(syms, r.stdout.split("\n")))
