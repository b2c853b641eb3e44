"""Effect rules over the whole program: combinational evaluation writes no registered element; a clock-edge function commits each one."""
import re
import common

LATE = {("Ren", "RAT_checkpoint")}   # read only for a branch tag whose allocation wrote it (decided by P15)


def pairs(records):
    out = {}
    for r, fs in records.items():
        s = set(fs)
        for f in fs:
            for g in (f + "_1", f + "_next", re.sub(r"cur(_?)$", r"nxt\1", f)):
                if g != f and g in s:
                    out[(r, f)] = g
    return out


def run(repo, work, tier, flags):
    j = common.effects(repo, work, flags)
    F = {f["sym"]: f for f in j["functions"]}
    mine = lambda f: f["file"].startswith(repo)
    edge = lambda f: mine(f) and re.search(r"(^|_)seq(_|$)|^seq", common.base(f))
    start = lambda f: mine(f) and (re.match(r"(init|reset|restore)", common.base(f)) or f["name"].split("::")[-2:-1] == [f["name"].split("::")[-1]])
    comb = [s for s, f in F.items() if mine(f) and "comb" in common.base(f).lower() and not edge(f)]
    edges = [s for s, f in F.items() if edge(f)]
    cls = lambda f: f["name"].rsplit("::", 1)[0] if "::" in f["name"] else ""
    clocked = {cls(F[s]) for s in edges}
    P = {k: v for k, v in pairs(j["records"]).items() if k[0] in clocked}
    if len(comb) < 50 or len(edges) < 20 or len(P) < 30:
        raise common.Broken("found only %d combinational functions, %d clock-edge functions, %d registered elements" % (len(comb), len(edges), len(P)))
    via = common.reach(F, comb, lambda f: edge(f) or start(f))
    # elements without a next-value twin: whatever the predictor's clock-edge functions write is registered
    pred = {}
    for s in common.reach(F, edges):
        f = F[s]
        if cls(f) in ("BPU_TOP", "BTB_TOP", "TAGE_TOP", "TypePredictor") and edge(f):
            for w in f["writes"]:
                if w[0] == cls(f):
                    pred[(w[0], w[1])] = f["name"]
    v1, v2, v3, n1, n3 = [], [], [], 0, 0
    for s in sorted(via):
        f = F[s]
        for r, fld, loc in f["writes"]:
            n1 += 1
            if (r, fld) in P:
                v1.append({"rule": "combinational evaluation writes no registered element", "site": common.place(repo, f, loc), "detail": "%s.%s is written before the clock edge (%s)" % (r, fld, common.chain(F, via, s))})
            if r in ("BPU_TOP", "BTB_TOP", "TAGE_TOP", "TypePredictor"):
                n3 += 1
                if (r, fld) in pred:
                    v3.append({"rule": "predictor evaluation writes no element its clock edge writes", "site": common.place(repo, f, loc), "detail": "%s.%s is also written by %s (%s)" % (r, fld, pred[(r, fld)], common.chain(F, via, s))})
    er = common.reach(F, edges)
    for (r, fld), nx in sorted(P.items()):
        ok = any(any(w[0] == r and w[1] == fld for w in F[s]["writes"]) and [r, nx] in F[s]["touches"] for s in er)
        if not ok:
            v2.append({"rule": "every registered element is committed from its next value at the clock edge", "site": "%s.%s" % (r, fld), "detail": "no clock-edge function writes it and reads %s" % nx})
    # power-up: constructor or initialisation writes it, or every object of the record is zeroed when created
    sv = common.reach(F, [s for s, f in F.items() if start(f)])
    W = {(w[0], w[1]) for s in sv for w in F[s]["writes"]}
    made = {}
    for f in j["functions"]:
        for c, loc, z in f["constructs"]:
            if mine(f):
                made.setdefault(c, []).append((z, loc, f))
    v4 = []
    for r, fld in sorted(set(P) | set(pred)):
        if (r, fld) in W or (r, fld) in LATE or (made.get(r) and all(z for z, _, _ in made[r])):
            continue
        v4.append({"rule": "every registered element has a value before the first cycle", "site": "%s.%s" % (r, fld), "detail": "no constructor or initialisation writes it; created at " + "; ".join(common.place(repo, f, l) for z, l, f in made.get(r, []) if not z)})
    fns = sorted({place for s in via if mine(F[s]) for place in [F[s]["file"] + ":" + F[s]["name"]]})
    return [{"rule": "combinational evaluation writes no registered element", "instances": n1, "violations": v1, "functions": fns, "analysed": "%d units, %d functions reachable from %d combinational roots, %d registered elements in %d records" % (len(j["units"]), len(via), len(comb), len(P), len({k[0] for k in P}))},
            {"rule": "every registered element is committed from its next value at the clock edge", "instances": len(P), "violations": v2},
            {"rule": "every registered element has a value before the first cycle", "instances": len(set(P) | set(pred)), "violations": v4},
            {"rule": "predictor evaluation writes no element its clock edge writes", "instances": len(pred), "violations": v3}]
