"""Decides P19: Dynamic.tla exhaustively, its runs replayed in the library, recorded runs judged by DynamicTrace.tla."""
import json, re
from common import *
from gen import *
import impl
from impl import World, n, attempt, show, observe_model, observe_results
import analysis

Q = 1 if not THOROUGH else 10


def scenario(r):
    """Calls that build a model with dynamic loads."""
    calls, h = analysis.model(r, 0.4, 0.3, mats=r.choice([1, 2, 3]))
    us, ls = [], []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        off = r.choice([0, 0, 0.5, 1, 2, h])
        if r.random() < 0.6:
            us.append(udl(r.choice([10, 20, 40, 80, 150, r.uniform(5, 100)]), off, r.choice([0.5, 1, 2, h, 3 * h, None, r.uniform(0.2, 3) * h]), "red", True))
        else:
            ls.append(ll(r.choice([10, 20, 40, 80, 150, r.uniform(5, 100)]), off, "blue", True))
    if r.random() < 0.3:
        us.append(udl(15, r.choice([0.3, 1, h]), r.choice([1, None]), "red", False))
    if r.random() < 0.3:
        ls.append(ll(12, r.choice([0.3, 1, h]), "blue", False))
    new = ([udls(*us)] if us else []) + ([lls(*ls)] if ls else [])
    r.shuffle(new)
    calls = calls + new
    if r.random() < 0.3:
        calls.append(ground(r))
    return calls


ground = analysis.ground


class Probes:
    """Wraps analyse_slope of one slope and notes what each analysis finds and where the loads are."""

    def __init__(self, s, answers=None):
        self.s, self.list, self.answers = s, [], list(answers) if answers is not None else None
        self.width, self.given = [], []
        self.orig = s.analyse_slope
        s.analyse_slope = self.analyse

    def analyse(self, *a, **k):
        s = self.s
        if self.answers is None:
            r = self.orig(*a, **k)
        else:
            # more probes than the oracle foresees get the last answer
            # an offset tried again gets the answer it got before
            i = len(self.list)
            at = ([u.offset for u in s._udls if u.dynamic_offset] + [u.offset for u in s._lls if u.dynamic_offset])[:1]
            same = [f for x, f in self.given if x == at]
            f = same[0] if same else self.answers[min(i, len(self.answers) - 1)]
            self.given.append((at, f))
            s._search = [dict(c_x=1.0 + i, c_y=2.0, radius=1.5, l_c=(0.5, s._external_height), r_c=(2.5, 1.0), FOS=f)]
            r = None
        mf = attempt(s.get_min_FOS)
        self.width.append((s._external_length, [float(x) for x in s._limits]))
        self.list.append(dict(udls=[n(u.offset) for u in s._udls], lls=[n(u.offset) for u in s._lls],
                              lim=[n(x) for x in s._limits],
                              fos=n(mf) if mf is not None else n(float("nan")), ref=[], refobs=0, res=self.results()))
        return r

    def results(self):
        return json.loads(json.dumps(observe_results(self.s)))

    def stop(self):
        del self.s.analyse_slope


def run(calls, crit, answers=None, refs=False):
    w = World()
    done = []
    for e in calls:
        w.call(e)
        done.append(e)
    s = w.s["A"]
    first = [(u.dynamic_offset, u.offset) for u in s._udls], [(u.dynamic_offset, u.offset) for u in s._lls]
    p = Probes(s, answers)
    err = None
    ret = None
    try:
        ret = s.analyse_dynamic(crit)
    except Exception as x:
        err = f"{type(x).__name__}: {x}"
    finally:
        p.stop()
    rec = dict(calls=done, crit=n(crit), probes=p.list, ret="none" if ret is None else str(ret), err=err,
               table=[[n(k), n(v)] for k, v in (attempt(s.get_dynamic_results) or {}).items()],
               final=observe_model(s), min=[] if attempt(s.get_min_FOS) is None else [n(s.get_min_FOS())],
               res=p.results())
    if refs and err is None:
        import apiprops
        cache = {}
        for iq, q in enumerate(p.list):
            # the slope may have been widened by then
            key = json.dumps([q["udls"], q["lls"], p.width[iq]])
            if key not in cache:
                # the model of the probe built afresh
                w2 = World()
                for e in done:
                    w2.call(e)
                t = w2.s["A"]
                # the loads where they are at the probe, on a slope as wide as it was then
                off_u, off_l = [dec(x) for x in q["udls"]], [dec(x) for x in q["lls"]]
                mats = [mat(m.unit_weight, m.friction_angle, m.cohesion, m.depth_to_bottom, m.name, m.user_defined_color) for m in t._materials]
                us = [(u, o) for u, o in zip(t._udls, off_u)]
                ls = [(u, o) for u, o in zip(t._lls, off_l)]
                ev = [dict(e, s="B") for e in apiprops.rebuild(w2, "A", "B")]
                ev = [e for e in ev if e["op"] not in ("udls", "lls", "limits")]
                # extents: grown by every earlier probe
                grow = []
                for q2 in p.list:
                    for o2, (u, _) in zip([dec(x) for x in q2["udls"]], us):
                        grow.append((o2 + (u.length if u.length is not None else 3)) * 2.5)
                    for o2 in [dec(x) for x in q2["lls"]]:
                        grow.append(o2 * 3)
                    if q2 is q:
                        break
                wide = max([t._MIN_EXT_L] + grow)
                if wide > t._MIN_EXT_L:
                    ev.append(extents(wide, None, s="B"))
                if us:
                    ev.append(udls(*[udl(u.magnitude, o, u.length, u.color, False) for u, o in us], s="B"))
                if ls:
                    ev.append(lls(*[ll(u.magnitude, o, u.color, False) for u, o in ls], s="B"))
                # limits as they were (the specification says what they have to be)
                ev.append(limits(*p.width[iq][1], s="B"))
                for e in ev:
                    w2.call(e)
                b = w2.s["B"]
                w2.call(analyse(None, "B"))
                mf = attempt(b.get_min_FOS)
                cache[key] = ([] if mf is None else [n(mf)], observe_model(b))
            q["ref"], q["refobs"] = cache[key]
    return rec


def p19(out):
    # the protocol with an arbitrary oracle, and every run of it
    width = 3
    runs = []
    for far in (["3.7"] if not THOROUGH else ["3.7", "0.15", "42.5"]):
        r = tlc_or_die("Dynamic", "SPECIFICATION Spec\nCONSTANT Width = %d\nINVARIANT P19_Bounded P19_Straddle P19_Ends P19_Safe P19_Unsafe P19_NoStuck\nPROPERTY P19_Inside\n"
                       % (width + (1 if THOROUGH else 0)), env={"FAR": far})
        out.add(states=r.distinct, transitions=r.generated, spec_states=r.distinct)
        for l in r.lines("RUN"):
            v = [int(x) for x in re.findall(r"-?\d+", l)]
            runs.append([dec(v[i:i + 2]) for i in range(0, len(v), 2)])
    runs = sorted({tuple(x) for x in runs}, key=lambda x: (len(x), x))
    r = Rnd(f"{SEED}/P19")
    keep = 1500 if not THOROUGH else 20000
    short = [x for x in runs if len(x) <= 6]
    rest = [x for x in runs if len(x) > 6]
    chosen = (short if len(short) <= keep else r.sample(short, keep)) + r.sample(rest, min(len(rest), keep))
    recs = []
    for i, ans in enumerate(chosen):
        k = Rnd(f"{SEED}/P19o/{i % 40}")
        recs.append(run(scenario(k), 1.3, list(ans)))
    for i in range(150 * Q):     # answers that follow no scheme
        k = Rnd(f"{SEED}/P19x/{i}")
        crit = k.choice([1.3, 1.0, 1.5, k.uniform(0.5, 2)])
        recs.append(run(scenario(k), crit, [crit + k.choice([0, 0.0004, -0.0004, 0.005, -0.2, 0.3, 0.02, k.uniform(-0.5, 0.5)]) for _ in range(13)]))
    for i in range(60 * Q):
        k = Rnd(f"{SEED}/P19/{i}")
        calls = scenario(k) + [options(10, 500, None, 1e-7, 100)]
        if k.random() < 0.3:
            calls.append(lambda w: k.limits_for(w, bad=0))
        z = k.random()
        if z < 0.25:
            calls = calls + [lambda w: [p for p in (k.plane_for(w) for _ in range(6)) if p]]
        # a target between the two extremes
        fixed = [c for c in calls]
        w = World()
        concrete = []
        for e in fixed:
            x = e(w) if callable(e) else e
            for y in (x if isinstance(x, list) else [x] if x else []):
                w.call(y)
                concrete.append(y)
        base = run(concrete, 0.0001)
        f0 = dec(base["probes"][0]["fos"]) if base["probes"] else float("nan")
        base = run(concrete, 1e9)
        f1 = dec(base["probes"][-1]["fos"]) if base["probes"] else float("nan")
        if f0 != f0 or f1 != f1:
            continue
        c = k.choice([f0, f1, (f0 + f1) / 2, f0 + 0.3 * (f1 - f0), k.uniform(min(f0, f1), max(f0, f1)), 1.3, k.uniform(0.8, 2)])
        recs.append(run(concrete, c, refs=True))
    good = []
    empty = 0
    for x in recs:
        if x["err"] and x["probes"] and dec(x["probes"][-1]["fos"]) != dec(x["probes"][-1]["fos"]):
            empty += 1         # no plane could be analysed: there is no factor of safety to report
        elif x["err"]:
            out.violation("; ".join(show(e) for e in x["calls"]) + f"; analyse_dynamic({dec(x['crit'])})", "dynamic analysis raised " + x["err"].split(":")[0],
                          dict(events=x["calls"], crit=dec(x["crit"]), error=x["err"]))
        else:
            good.append({k: v for k, v in x.items() if k != "err"})
    t = tlc_or_die("DynamicTrace", "SPECIFICATION Spec\n", env={"RUNS": dump("runs.ndjson", good, True), "FAR": "1"}, timeout=800)
    if t.distinct != 2 * len(good):
        raise CheckError("not every run was judged")
    out.add(without_plane=empty)
    out.add(states=t.distinct, transitions=sum(len(x["probes"]) for x in good), traces=len(good),
            oracle_runs=sum(1 for x in good if not x["probes"] or not x["probes"][0]["ref"]),
            real_runs=sum(1 for x in good if x["probes"] and x["probes"][0]["ref"]),
            real_probes=sum(len(x["probes"]) for x in good if x["probes"] and x["probes"][0]["ref"]),
            returned={v: sum(1 for x in good if x["ret"] == v) for v in ("0", "1", "none")})
    for l in t.lines("FAIL"):
        k, _, clause = l.split("|")
        x = good[int(k) - 1]
        if clause.startswith("HARNESS"):
            raise CheckError(clause + " " + dump("harness.json", x) + "; ".join(show(e) for e in x["calls"]) + f" target {dec(x['crit'])!r} " + str([[dec(y) for y in p["udls"] + p["lls"]] for p in x["probes"]]))
        out.violation("; ".join(show(e) for e in x["calls"]) + f"; analyse_dynamic({dec(x['crit'])})", clause,
                      dict(events=x["calls"], crit=dec(x["crit"]), probes=[[[dec(y) for y in p["udls"] + p["lls"]], dec(p["fos"])] for p in x["probes"]]))
    if good:
        x = good[-1]
        out.sample("; ".join(show(e) for e in x["calls"])[:1200] + f"; analyse_dynamic({dec(x['crit'])}): "
                   + str([[dec(y) for y in p["udls"] + p["lls"]][:1] + [dec(p["fos"])] for p in x["probes"]]))
