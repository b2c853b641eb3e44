"""Order of evaluation within a cycle: a signal is computed before it is used, every stage is evaluated and clocked, a squash comes last."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common

ROOT = "SimCpu::cycle"
SEQUENCERS = ("SimCpu", "BackTop")   # their functions only put the stages' steps in order
# Signals used with last cycle's value on purpose. (stage, step, signals); should the step be renamed, the stage alone identifies it.
# Specified: these steps see the squash of the cycle before; the values that result in one cycle are checked by P17, P19 and P25, the delay itself is taken as given:
FEEDBACK = [("PreIduQueue", "comb_accept_front", {("RobBroadcastIO", "flush")}),
            ("Prf", "comb_awake", {("DecBroadcastIO", "mispred"), ("DecBroadcastIO", "br_mask")})]
# Device responses are published from registers before the back end is evaluated and rewritten afterwards for the next cycle:
FEEDBACK += [("RealLsu", f, {("PeripheralRespIO", x) for x in ("is_mmio", "mmio_rdata", "ready")}) for f in ("comb_mmio_in", "comb_mmio_out")]
COPIES = {("RealLsu", "CsrStatusIO")}   # a copy inside the translation request, not the status signal itself
LATCHED = {"ExuIdIO"}   # also the type of the decode stage's registered copy, which the type alone does not tell apart
TWO_PHASE = {"MemSubsystem"}   # answers first, requests last: its own signals cross the cycle on purpose
# A squash of a stage's contents overrides what the same cycle puts in, and comes before what the same cycle takes out.
PRIORITY = [("Isu", "comb_enq", "comb_flush"), ("Rob", "comb_fire", "comb_flush"), ("Rob", "comb_branch", "comb_fire"), ("RealLsu", "comb_dis2lsu", "comb_flush"), ("RealLsu", "comb_flush", "comb_lsu2dcache_ldq"),
            ("RealLsu", "comb_flush", "comb_lsu2dcache_stq"), ("RealLsu", "comb_flush", "comb_mmio_out"), ("PreIduQueue", "comb_accept_front", "comb_fire")]
# Steps of one stage that work on the same instructions of the cycle.
PRIORITY += [("Dispatch", "comb_alloc", "comb_wake"), ("Dispatch", "comb_wake", "comb_dispatch"), ("Dispatch", "comb_dispatch", "comb_fire"), ("Ren", "comb_alloc", "comb_rename"), ("Ren", "comb_rename", "comb_fire")]
RULE = "no step uses a signal that is computed later in the cycle"
TOP = "what leaves the core is taken after it is computed"
CLOCK = "every stage is clocked once per cycle, after its evaluation"
EVAL = "every step of a stage is evaluated each cycle"
PRIO = "steps of a stage that build on each other, and its squashes, keep their order"
EDGE = {"seq", "init", "reset", "clear"}


def owner(f):
    p = f["name"].split("::")
    return p[-2] if len(p) > 1 else ""


def run(REPO, work, tier, flags):
    j = common.effects(REPO, work, flags, trace=SEQUENCERS)
    F = {f["sym"]: f for f in j["functions"]}
    roots = [f for f in F.values() if f["name"] == ROOT and f.get("order")]
    if len(roots) != 1:
        raise common.Broken("no evaluation order: %s not found" % ROOT)
    io = {r for r in j["records"] if r.endswith("IO")} - LATCHED
    short = lambda l: l.replace(REPO + "/", "")

    def walk(f, depth=0):   # calls of steps and own reads in program order, sequencers expanded
        for k, a, b, l in f["order"]:
            if k == "c" and a in F:
                if owner(F[a]) in SEQUENCERS and F[a].get("order") and depth < 8:
                    yield from walk(F[a], depth + 1)
                elif owner(F[a]) and F[a]["file"].startswith(REPO):
                    yield a, l, None
            elif k == "r" and a in io and owner(f) == "BackTop":
                yield f["sym"], l, (a, b)
    seq = list(walk(roots[0]))
    clock = [(i, s) for i, (s, l, x) in enumerate(seq) if x is None and common.base(F[s]) == "seq"]
    stages = {owner(F[s]) for s, _, x in seq if x is None and common.base(F[s]) not in EDGE}
    clocked = {owner(f) for f in F.values() if common.base(f) == "seq" and owner(f) in stages}
    memo = {}

    def eff(s):   # what a step reads and writes, with everything it calls outside other stages
        if s not in memo:
            me, via = owner(F[s]), common.reach(F, [s], lambda g: owner(g) in stages and owner(g) != owner(F[s]))
            memo[s] = tuple({(x[0], x[1]) for v in via for x in F[v][k] if x[0] in io and (k == "reads" or (me, x[0]) not in COPIES)} for k in ("reads", "writes"))
        return memo[s]
    ev = [(s, l) + (eff(s) if x is None else ({x}, set())) + (x,) for s, l, x in seq if x is not None or common.base(F[s]) not in EDGE]
    names = {f["name"] for f in F.values()}
    n, v, sig, nt, vt = 0, [], set(), 0, []
    for i, (s, l, r, w, own) in enumerate(ev):
        me = owner(F[s])
        for x in sorted(r):
            drives = lambda t, w2: x in w2 and (owner(F[t]) != me or (t != s and x not in w and me not in TWO_PHASE))
            if not any(drives(t, w2) for t, _, _, w2, _ in ev):
                continue
            sig.add(x)
            later = [(t, m) for t, m, _, w2, _ in ev[i + 1:] if drives(t, w2)]
            if own is not None:
                nt += 1
            else:
                n += 1
            if later and not any(me == st and x in xs and (common.base(F[s]) == fn or st + "::" + fn not in names) for st, fn, xs in FEEDBACK):
                (v if own is None else vt).append({"rule": RULE if own is None else TOP, "site": common.place(REPO, F[s], l), "detail": "reads %s.%s before %s computes it at %s" % (x[0], x[1], F[later[0][0]]["name"], short(later[0][1]))})
    if len(ev) < 40 or len(clocked) < 8 or len(sig) < 30 or not nt:
        raise common.Broken("found only %d steps of %d clocked stages and %d signals" % (len(ev), len(clocked), len(sig)))
    vc = []
    for c in sorted(clocked):
        at = [i for i, s in clock if owner(F[s]) == c]
        last = max([i for i, (s, _, x) in enumerate(seq) if x is None and owner(F[s]) == c and common.base(F[s]).startswith("comb")] or [-1])
        if len(at) != 1 or at[0] < last:
            vc.append({"rule": CLOCK, "site": c, "detail": "clock edge applied %d times in a cycle" % len(at) if len(at) != 1 else "clock edge applied before %s at %s" % (F[seq[last][0]]["name"], short(seq[last][1]))})
    via = common.reach(F, [roots[0]["sym"]])
    evals = [f for f in F.values() if owner(f) in clocked and f["file"].startswith(REPO) and common.base(f).startswith("comb") and f["writes"]]
    ve = [{"rule": EVAL, "site": common.place(REPO, f), "detail": "not reached from %s" % ROOT} for f in evals if f["sym"] not in via]
    vp, np = [], 0
    for c, a, b in PRIORITY:
        pa, pb = ([i for i, e in enumerate(ev) if e[4] is None and F[e[0]]["name"] == c + "::" + k] for k in (a, b))
        if not pa or not pb:   # split or renamed: nothing to compare here
            continue
        np += 1
        if max(pa) > min(pb):
            vp.append({"rule": PRIO, "site": "%s at %s" % (F[ev[min(pb)][0]]["name"], short(ev[min(pb)][1])), "detail": "evaluated before %s at %s" % (F[ev[max(pa)][0]]["name"], short(ev[max(pa)][1]))})
    return [{"rule": RULE, "instances": n, "violations": v, "functions": [common.place(REPO, F[s]) for s in sorted({e[0] for e in ev})],
             "analysed": "%d units; %d steps and uses, %d clocked stages in the order of one cycle; %d signals between stages" % (len(j["units"]), len(ev), len(clocked), len(sig))},
            {"rule": TOP, "instances": nt, "violations": vt}, {"rule": CLOCK, "instances": len(clocked), "violations": vc}, {"rule": EVAL, "instances": len(evals), "violations": ve}, {"rule": PRIO, "instances": np, "violations": vp}]
