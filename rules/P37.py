"""Effect rules over the whole program for determinism: no ambient source, no address used as a number, no unassigned value,
and nothing that can be compiled out (debug assertions, statistics) changes anything else."""
import os
import re
import common

AMBIENT = re.compile(r"^(s?rand(om)?(_r)?|[dlejm]rand48|time|clock|clock_gettime|gettimeofday|times|ftime|timespec_get|getenv|secure_getenv|getpid|gettid|getrandom|getentropy|arc4random.*|getrusage|sched_getcpu|pthread_(create|self)|uname|gethostname|std::chrono::.*::now\(\)|std::random_device::.*|std::this_thread::.*|std::thread::.*|llvm\.(readcyclecounter|x86\.rdtsc.*|x86\.rdrand.*))$")
CONTROL = {"cycle", "commit_num", "perf_start"}   # counters that define the measured window of a run; they are inputs of run control, not diagnostics


def run(repo, work, tier, flags):
    j = common.effects(repo, work, flags)
    F = {f["sym"]: f for f in j["functions"]}
    mine = lambda f: f["file"].startswith(repo)
    roots = [s for s, f in F.items() if mine(f) and (re.search(r"comb|seq|^cycle|^exec|^step|^RV32|commit|translate|eval", common.base(f)) or f["name"].startswith("RefCpu::"))]
    if len(roots) < 100:
        raise common.Broken("found only %d evaluation functions" % len(roots))
    via = common.reach(F, roots)
    dem = common.demangle({c for s in via for c, _ in F[s]["calls"] if c not in F})
    r1 = {"rule": "no evaluation function calls a source of host time, randomness, environment or threads", "instances": 0, "violations": [], "functions": sorted({F[s]["file"] + ":" + F[s]["name"] for s in via if mine(F[s])})}
    r2 = {"rule": "no evaluation function uses the address of an object as a number", "instances": 0, "violations": []}
    r3 = {"rule": "no evaluation function uses a variable that was never assigned", "instances": 0, "violations": []}
    r6 = {"rule": "a statistic decides nothing but statistics", "instances": 0, "violations": []}
    for s in sorted(via):
        f = F[s]
        for c, loc in f["calls"]:
            r1["instances"] += 1
            n = dem.get(c, c)
            if c not in F and AMBIENT.match(n):
                r1["violations"].append({"rule": r1["rule"], "site": common.place(repo, f, loc), "detail": "calls %s (%s)" % (n, common.chain(F, via, s))})
        if re.match(r"std::(hash|less|greater)<.*\*>::operator", f["name"]) and "char *" not in f["name"]:
            r2["violations"].append({"rule": r2["rule"], "site": common.place(repo, f), "detail": "container ordered or hashed by address (%s)" % common.chain(F, via, s)})
        if mine(f):
            r2["instances"] += 1
            r3["instances"] += 1
            for loc in f["addr_as_int"]:
                r2["violations"].append({"rule": r2["rule"], "site": common.place(repo, f, loc), "detail": common.chain(F, via, s)})
            for loc, op in f["unassigned"]:
                r3["violations"].append({"rule": r3["rule"], "site": common.place(repo, f, loc), "detail": "operand of '%s' has no assignment on any path" % op})
            r6["instances"] += sum(1 for w in f["writes"] if w[0] in common.STATS)
            for loc, st, how in f["stat_uses"]:
                if st.split(".")[1] not in CONTROL:
                    r6["violations"].append({"rule": r6["rule"], "site": common.place(repo, f, loc), "detail": "%s %s" % (st, how)})
    # the same program with debug assertions, and without performance counters
    r4 = {"rule": "debug assertions write nothing", "instances": 0, "violations": []}
    r5 = {"rule": "what the performance-counter switch removes writes only statistics", "instances": 0, "violations": []}
    off = os.path.join(work, "no_counters.h")
    open(off, "w").write('#include "config.h"\n#undef CONFIG_PERF_COUNTER\n')
    dbg = common.effects(repo, work, flags, ndebug=False, tag="dbg")
    nop = common.effects(repo, work, lambda e: ["-include", off] + flags(e), tag="nop")
    for other, r, stats in ((dbg, r4, False), (nop, r5, True)):
        O = {f["sym"]: f for f in other["functions"]}
        for s in sorted(set(F) & set(O)):
            if not mine(F[s]) or not F[s]["name"] or F[s]["name"].startswith("__cxx_global"):
                continue
            a, b = set(map(tuple, F[s]["write_sites"])), set(map(tuple, O[s]["write_sites"]))
            r["instances"] += len(a | b) if not stats else sum(1 for w in a if w[0] in common.STATS)
            sites = {}
            for rec, fld, loc in a ^ b:
                sites.setdefault(loc, []).append((rec, fld))
            for loc, ws in sorted(sites.items()):
                if stats and any(w[0] in common.STATS for w in ws):
                    continue
                r["violations"].append({"rule": r["rule"], "site": common.place(repo, F[s], loc), "detail": "writes %s in only one of the two builds" % ", ".join("%s.%s" % w for w in sorted(ws)[:4])})
            for c in sorted({c for c, _ in O[s]["calls"]} ^ {c for c, _ in F[s]["calls"]}):
                g = O.get(c) or F.get(c)
                if g and mine(g):
                    G = O if c in O else F
                    dirty = [G[x] for x in common.reach(G, [c]) if any(w[0] not in common.STATS for w in G[x]["globals"])]
                    if dirty:
                        r["violations"].append({"rule": r["rule"], "site": common.place(repo, F[s]), "detail": "%s, called in only one of the two builds, writes global state" % g["name"]})
    return [r1, r2, r3, r4, r5, r6]
