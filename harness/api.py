"""Decides properties of the interface state machine (Slope.tla, SlopeTrace.tla)."""
import json, random, re, time
from common import *
import impl
from impl import Recorder, show

INVARIANTS = ["P01_Geometry", "P02_Levels", "P03_LoadsFit", "P04_NoStaleResults", "P06_Loads", "P08_Strata",
              "P09_Ranges", "P10_Options", "P11_Limits"]
PROPERTIES = ["P07_RefusedChangesNothing", "P20_QueriesChangeNothing", "P21_OthersUntouched", "P06_RemovalExact"]


def explore(alphabet, depth, out, setup=(), timeout=600):
    """All transitions of Slope.tla with this alphabet: list of call sequences (indices into alphabet)."""
    alph = list(alphabet)
    cfg = "SPECIFICATION Spec\nCONSTANT MaxDepth = %d\nVIEW View\nACTION_CONSTRAINT Record\n" % depth
    cfg += "".join(f"INVARIANT {i}\n" for i in INVARIANTS) + "".join(f"PROPERTY {p}\n" for p in PROPERTIES)
    r = tlc_or_die("Slope", cfg, env={"ALPHABET": dump("alphabet.json", alph), "SETUP": dump("setup.json", list(setup))}, timeout=timeout, workers=1)   # the same paths every time
    edges = [tuple(int(x) - 1 for x in re.findall(r"\d+", l)) for l in r.lines("EDGE")]
    out.add(states=r.distinct, transitions=len(edges), spec_states=r.distinct, spec_transitions=len(edges), spec_wall_s=round(r.wall, 1))
    # a sequence that is a beginning of another one need not be run on its own
    have = set()
    for e in edges:
        have.update(e[:i] for i in range(1, len(e)))
    return [e for e in edges if e not in have], r


def judge(rec, out, prop, timeout=700):
    """Validate a recorded forest with TLC; report the failing clauses of prop."""
    env = rec.write()
    r = tlc_or_die("SlopeTrace", "SPECIFICATION Spec\n", env=env, timeout=timeout)
    if r.distinct != len(rec.nodes):
        raise CheckError(f"{r.distinct} of {len(rec.nodes)} recorded steps were judged")
    out.add(states=r.distinct, transitions=len(rec.nodes) - len(rec.roots), traces=rec.paths,
            steps_judged=len(rec.nodes), distinct_models=len(rec.mobs), distinct_results=len(rec.robs),
            judge_wall_s=round(r.wall, 1))
    cmp = len(set(r.lines("CMP")))
    if cmp:
        out.add(equal_models_compared=cmp)
    fails = []
    for l in r.lines("FAIL"):
        k, props, clause = l.split("|")
        k = int(k)
        props = re.findall(r"P\d\d", props)
        if prop in props:
            fails.append((k, clause))
        else:
            for p in props:
                out.other[p] = out.other.get(p, 0) + 1
    fails.sort(key=lambda x: (len(rec.path(x[0])), x[0]))
    for k, clause in fails:
        ev = rec.path(k)
        out.violation("; ".join(show(e) for e in ev), clause,
                      {"events": ev, "share": rec.nodes[k - 1]["share"], "outcome": rec.nodes[k - 1]["out"],
                       "observed": rec.mobs[rec.nodes[k - 1]["oa" if ev[-1]["s"] == "A" else "ob"] - 1]})
    return r


def check(prop, out, configs, walks, share=(False,)):
    """configs: (alphabet, depth); walks: sequences of events (or functions of the world)."""
    rec = Recorder()
    ops = {}
    for alphabet, depth, *setup in configs:
        setup = list(setup[0]) if setup else []
        paths, r = explore(alphabet, depth, out, setup)
        for p in paths:
            for sh in share:
                rec.run(setup + [alphabet[i] for i in p], share=sh)
        if paths:
            out.sample("graph: " + "; ".join(show(e) for e in setup + [alphabet[i] for i in paths[len(paths) // 2]]))
    t = time.time()
    for w, sh in walks:
        rec.run(w, share=sh)
    for nd in rec.nodes:
        o = nd["e"]["op"] + ("" if nd["out"] == "ok" else " refused")
        ops[o] = ops.get(o, 0) + 1
    if rec.paths:
        out.sample("walk: " + "; ".join(show(e) for e in rec.path(len(rec.nodes)))[:1500])
    out.add(calls=ops)
    judge(rec, out, prop)
    return rec
