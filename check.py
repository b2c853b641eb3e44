#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep] [--entry NAME[:PART]]

Decides one property on the current working tree of /repo by static analysis.
Exit 0: held. Exit 1: a line `VIOLATION property=<id> replay=<path>`.
Exit 2: the analysis itself could not run (anchor vanished, nothing analysed).
"""
import concurrent.futures as cf, fcntl, glob, importlib.util, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
VSA, EFF = os.path.join(BUILD, "vsa"), os.path.join(BUILD, "eff")
CLANG = "clang++-18"
INC = ["include", "libs/include", "back-end/include", "back-end/Exu/include", "back-end/Lsu/include", "back-end/tools/include",
       "MemSubSystem/include", "diff/include", "GenSimpoint/include/api", "legacy/mmu/include", "front-end", "front-end/icache/include", "."]
BASE = ["-std=c++2a", "-DNDEBUG", "-g", "-fstandalone-debug", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-access-control",
        "-fno-threadsafe-statics", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-w", "-ferror-limit=0", "-DVERIF_STATIC=1"]


class Broken(Exception):
    pass


def build_engine():
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        srcs = glob.glob(os.path.join(VERIF, "engine", "*"))
        cfg = lambda a: subprocess.check_output(["llvm-config-18", a], text=True).split()
        for tool, src in ((VSA, "engine/vsa.cpp"), (EFF, "engine/eff.cpp")):
            if os.path.exists(tool) and all(os.path.getmtime(s) <= os.path.getmtime(tool) for s in srcs):
                continue
            tmp = tool + ".tmp%d" % os.getpid()
            cmd = [CLANG, "-O2", "-g1", "-std=c++17", "-fno-rtti", "-w"] + cfg("--cppflags") + [os.path.join(VERIF, src), "-o", tmp] + cfg("--ldflags") + ["-lLLVM-18"]
            r = subprocess.run(cmd, text=True, capture_output=True)
            if r.returncode:
                raise Broken("engine does not build:\n" + r.stderr[-3000:])
            os.rename(tmp, tool)


def flags(extra):
    return BASE + extra + ["-I" + os.path.join(VERIF, "harness")] + ["-I" + os.path.join(REPO, d) for d in INC]


def run(cmd, **kw):
    return subprocess.run(cmd, text=True, capture_output=True, **kw)


def directives(path):
    d = {"ENTRY": [], "TU": [], "FLAGS": [], "TIME": []}
    for line in open(path):
        m = re.match(r"//\s*(ENTRY|TU|FLAGS|TIME)\s*:\s*(.*)", line)
        if m:
            d[m.group(1)].append(m.group(2).strip())
    return d


def compile_harness(path, work):
    d = directives(path)
    fl = [x.replace("$REPO", REPO).replace("$VERIF", VERIF) for s in d["FLAGS"] for x in s.split()]
    name = os.path.splitext(os.path.basename(path))[0]
    wrap = os.path.join(work, name + "_w.cpp")
    tab = os.path.join(work, name + "_wires.inc")
    bc = os.path.join(work, name + ".bc")
    head = "__attribute__((used)) extern const struct { const char *n; int w; } __v_wire_table[] = {\n"

    def write(exprs):
        with open(tab, "w") as f:
            f.write(head + "{nullptr, 0},\n{nullptr, 1},\n" + "".join('{ "%s", (int)(%s) },\n' % (e.replace('"', ""), e) for e in exprs) + "};\n")
    with open(wrap, "w") as f:
        f.write('#include "%s"\n#include "%s"\n' % (path, tab))
    write([])
    cc = [CLANG] + flags(fl) + ["-c", "-emit-llvm", wrap, "-o", bc]
    r = run(cc)
    if r.returncode:
        raise Broken("%s does not compile against the current source:\n%s" % (name, r.stderr[:4000]))
    r = run([VSA, bc, "--list-wires"])
    exprs = [e for e in r.stdout.split("\n") if e.strip()]
    if exprs:
        for _ in range(4):
            write(exprs)
            r = run(cc)
            if r.returncode == 0:
                break
            bad = set(int(m) for m in re.findall(re.escape(tab) + r":(\d+):", r.stderr))
            keep = [e for i, e in enumerate(exprs) if i + 4 not in bad]
            if len(keep) == len(exprs):
                raise Broken("width table of %s does not compile:\n%s" % (name, r.stderr[:2000]))
            exprs = keep
        else:
            raise Broken("width table of %s does not converge" % name)
    if d["TU"]:
        parts = [bc]
        for i, tu in enumerate(d["TU"]):
            o = os.path.join(work, "%s_tu%d.bc" % (name, i))
            src = tu.split()[0].replace("$REPO", REPO)
            r = run([CLANG] + flags(fl) + tu.split()[1:] + ["-c", "-emit-llvm", src, "-o", o])
            if r.returncode:
                raise Broken("%s does not compile:\n%s" % (src, r.stderr[:3000]))
            parts.append(o)
        r = run(["llvm-link-18"] + parts + ["-o", bc + ".l"])
        if r.returncode:
            raise Broken("link of %s: %s" % (name, r.stderr[:2000]))
        os.rename(bc + ".l", bc)
    return bc, d


def run_entry(bc, entry, part, seed, tl, work):
    out = os.path.join(work, "%s_%s_%d.json" % (os.path.basename(bc), entry, part))
    t0 = time.time()
    try:
        r = run(["bash", "-c", 'ulimit -v 5000000; exec "$@"', "vsa", VSA, bc, "--entry", entry, "--arg", str(part), "--seed", str(seed), "--time", str(tl), "--out", out], timeout=tl * 2 + 120)
    except subprocess.TimeoutExpired:
        return {"exhausted": "%s part %d: time" % (entry, part)}
    if "bad_alloc" in r.stderr:
        return {"exhausted": "%s part %d: memory" % (entry, part)}
    if r.returncode == 2 and os.path.exists(out):   # stopped early, but a violation found before the stop stands
        j = json.load(open(out))
        if j.get("violations"):
            j["harness"], j["wall_s"], j["stopped_early"] = os.path.basename(bc), time.time() - t0, j.pop("broken", "")
            return j
    if r.returncode not in (0, 1) or not os.path.exists(out):
        raise Broken("%s part %d: engine exit %d\n%s" % (entry, part, r.returncode, r.stderr[-2500:]))
    j = json.load(open(out))
    j["harness"] = os.path.basename(bc)
    j["wall_s"] = time.time() - t0
    if os.environ.get("VSA_VERBOSE"):
        sys.stderr.write(r.stderr)
    return j


def value_flow(pid, tier, seed, work, only=None):
    """Runs every harness of the property; returns list of per-entry results."""
    hs = sorted(glob.glob(os.path.join(VERIF, "harness", pid + "*.cpp")))
    if not hs:
        return [], 0
    build_engine()
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or max(1, min(8, os.cpu_count() or 4))
    results = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        comp = {h: ex.submit(compile_harness, h, work) for h in hs}
        futs = []
        for h, f in comp.items():
            bc, d = f.result()
            tl = float(d["TIME"][0]) if d["TIME"] else 240.0
            if tier == "thorough":
                tl *= 2
            if not d["ENTRY"]:
                raise Broken("%s names no entry" % h)
            for e in d["ENTRY"]:
                w = e.split()
                lo, hi = (0, 0) if len(w) < 2 else (tuple(int(x) for x in w[1].split("..")) if ".." in w[1] else (0, int(w[1]) - 1))
                for p in range(lo, hi + 1):
                    if only and only != w[0] and only != "%s:%d" % (w[0], p):
                        continue
                    futs.append(ex.submit(run_entry, bc, w[0], p, seed, tl, work))
        for f in futs:
            try:
                results.append(f.result())
            except Broken as e:
                results.append({"broken": str(e)})
    return results, len(hs)


def known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    return out


def main():
    a = sys.argv[1:]
    if a[:1] == ["--setup"]:
        try:
            build_engine()
        except Broken as e:
            print(e)
            return 2
        return 0
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    only, keep = None, False
    i = 1
    while i < len(a):
        if a[i] == "--tier":
            tier = a[i + 1]; i += 1
        elif a[i] == "--entry":
            only = a[i + 1]; i += 1
        elif a[i] == "--keep":
            keep = True
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    evf = os.path.join(ev, pid + ".json")
    if os.path.exists(evf):
        os.unlink(evf)
    for f in glob.glob(os.path.join(ev, "replay", pid + "-*.json")):
        os.unlink(f)
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        res, nh = value_flow(pid, tier, seed, work, only)
        structural = []
        sp = os.path.join(VERIF, "rules", pid + ".py")
        if os.path.exists(sp) and not only:
            build_engine()
            sys.path.insert(0, os.path.join(VERIF, "rules"))
            spec = importlib.util.spec_from_file_location("rule_" + pid, sp)
            mod = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(mod)
            try:
                structural = mod.run(REPO, work, tier, flags)   # list of dicts: rule, instances, violations[], details
            except mod.common.Broken as e:
                raise Broken(str(e))
        if not res and not structural and not only:
            raise Broken("no analysis for " + pid)
        viol, rules, fns, ext, undec = [], {}, set(), {}, []
        tot = {}
        stats = {}
        broken = [j["broken"] for j in res if j.get("broken")]
        spent = [j["exhausted"] for j in res if j.get("exhausted")]
        if len(spent) * 4 > len(res):
            broken.append("analysis budget exhausted: " + "; ".join(spent[:4]))
        res = [j for j in res if not j.get("broken") and not j.get("exhausted")]
        for j in res:
            for k, v in j["obligations"].items():
                tot[k] = tot.get(k, 0) + v
            for k, v in j["stats"].items():
                stats[k] = stats.get(k, 0) + v
            for k, v in j["rules"].items():
                r = rules.setdefault(k, [0, 0]); r[0] += v[0]; r[1] += v[1]
            fns.update(f for f in j["functions"] if f.startswith(REPO))
            for k, v in j["externals"].items():
                ext[k] = ext.get(k, 0) + v
            undec += j["undecided"]
            for v in j["violations"]:
                v["harness"], v["entry"], v["part"] = j["harness"], j["entry"], j["arg"]
                viol.append(v)
        for s in structural:
            if s["instances"] <= 0:
                broken.append("rule %s has no instance" % s["rule"])
            rules[s["rule"]] = [s["instances"], s["instances"]]
            tot["total"] = tot.get("total", 0) + s["instances"]
            fns.update(s.get("functions", []))
            viol += s["violations"]
        dead = [k for k, v in rules.items() if v[1] == 0]
        if res and not only:
            if dead and not spent:
                broken.append("rules with no reachable obligation: " + "; ".join(dead))
            if not fns:
                broken.append("no function of the repository was analysed")
        kn = known(pid)
        unlisted, listed = [], {}
        for v in viol:
            key = "%s|%s" % (v["rule"], v.get("site", ""))
            hit = next((k for k in kn if re.search(k[0], key.replace(" ", "_"))), None)
            if hit:
                listed.setdefault(hit[1], []).append(v)
            else:
                unlisted.append(v)
        if broken and not unlisted:
            raise Broken("; ".join(broken[:5]))
        for k in listed:
            print("KNOWN-FINDING: property=%s %s" % (pid, k))
        wall = time.time() - t0
        cov = {
            "explanation": " ".join((["Static value-flow analysis of the LLVM IR of the current source; every obligation is a rule of the property instantiated at one field and one join of all paths reaching it."] if res else []) + (["Interprocedural effect analysis over the LLVM IR of the translation units; every instance is a rule applied to one function, write, call or element (see structural)."] if structural else [])),
            "harnesses": nh, "entries": len(res), "parts_out_of_budget": spent, "obligations": tot, "rules": {k: v[1] for k, v in sorted(rules.items())},
            "functions_analysed": len(fns), "functions": sorted(f.replace(REPO + "/", "") for f in fns),
            "ir": stats, "externals_assumed": ext, "undecided": ["%d x %s" % (undec.count(u), u) for u in sorted(set(undec))][:60],
            "structural": [{k: s[k] for k in s if k not in ("violations", "functions")} for s in structural],
        }
        json.dump({"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "other", "coverage": cov, "wall_s": round(wall, 3),
                   "assumptions": ["inputs of a harness range over every value of their declared width unless the harness states an assumption",
                                   "undecided obligations (normal forms differ but no violating valuation exists in the search) are accepted and counted"],
                   "violations": len(unlisted)}, open(evf, "w"), indent=1)
        print("%s: %d obligations (%s), %d functions, %d rules, %d undecided, %.1fs" % (pid, tot.get("total", 0), ", ".join("%s=%d" % (k, v) for k, v in tot.items() if k != "total" and v), len(fns), len(rules), tot.get("undecided", 0), wall))
        for u in spent:
            print("  out of budget:", u)
        if only or os.environ.get("VSA_VERBOSE"):
            for u in sorted(set(undec)):
                print("  undecided (%d):" % undec.count(u), u)
            print("  externals:", ext)
        if unlisted:
            for n, v in enumerate(unlisted):
                p = os.path.join(ev, "replay", "%s-%d.json" % (pid, n))
                json.dump(v, open(p, "w"), indent=1)
                if n < 12:
                    print("  rule: %s\n    at %s" % (v["rule"], v.get("site", "")))
                    if "value" in v:
                        print("    value %s, required %s" % (v["value"], v["required"]))
                    w = v.get("inputs", {})
                    if w:
                        print("    with " + ", ".join("%s=%s" % kv for kv in list(w.items())[:14]))
                    if v.get("detail"):
                        print("    " + v["detail"])
                if n < 12:
                    print("VIOLATION property=%s replay=%s" % (pid, p))
            return 1
        return 0
    except Broken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (pid, e))
        return 2
    finally:
        if keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
