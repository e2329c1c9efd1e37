"""Decides P30: the texts that objects and print_dynamic_results produce, judged by ReportTrace.tla."""
import contextlib, io, re
from common import *
from gen import *
from impl import World, n, attempt, show
import analysis, apiprops, dynamic

Q = 1 if not THOROUGH else 15
W30 = dict(new=1, boundary=3, extents=2, materials=4, rmmaterial=2, udls=3, rmudls=1, lls=3, rmlls=1, water=1)
NUM = re.compile(r"[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|\b(?:inf|nan)\b")
NAMES = ["Sand", "Clay", "Fill", "weathered rock", "", "Stiff (silty) clay", "a,b", "Lehm ä"]


def numbers(t):
    return [n(float(x)) for x in NUM.findall(t)]


def text(x, name=""):
    t = repr(x)
    if str(x) != t:
        return dict(nums=[], ends=False, named=False)
    named = name in t
    t = t.replace(name, " ", 1) if name else t
    # 1V : 2H, 10 kPa: units are no part of the numbers
    return dict(nums=numbers(re.sub(r"(?<=\d)[VH]\b", " ", t)), ends="continuous" in t, named=named)


def texts(s):
    return dict(slope=text(s), mats=[text(m, m.name) for m in s._materials],
                udls=[text(u) for u in s._udls], lls=[text(u) for u in s._lls])


def job(i):
    r = Rnd(f"{SEED}/P30/{i}")
    w, done = World(), []
    def do(c):
        for e in c:
            e = dict(e)
            if e["op"] == "materials":
                e["items"] = [dict(x, name=r.choice(NAMES)) if x["k"] == "mat" else x for x in e["items"]]
            w.call(e)
            done.append(e)
    out = dict(dyn=[])
    try:
        if i % 4:
            walk = apiprops.Walk(f"{SEED}/P30w/{i}", W30)
            do([e for e in (walk.step() for _ in range(r.choice([1, 3, 6, 12]))) if isinstance(e, dict)])
        else:
            do([e for e in dynamic.scenario(r) if isinstance(e, dict)])
            crit = r.choice([1.3, 1.0, r.uniform(0.5, 2)])
            d = r.uniform(0.05, 1) * crit
            far = crit + r.choice([0.5, 0.1, 20, 1500.1234567])
            ans = r.choice([[far], [crit - d, crit - 0.5 * d], [crit, crit], [crit - d, far] + [crit + r.uniform(-d, 0.9) for _ in range(11)],
                            [crit - d, far] + [crit + r.choice([0.0004, -0.0006, 0.05, 1e-9]) for _ in range(11)]])
            s = w.s["A"]
            p = dynamic.Probes(s, ans)
            ret = s.analyse_dynamic(crit)
            p.stop()
            o = io.StringIO()
            with contextlib.redirect_stdout(o):
                s.print_dynamic_results()
            out["dyn"] = [dict(ret="none" if ret is None else str(ret), table=[[n(a), n(b)] for a, b in s.get_dynamic_results().items()],
                               lines=[numbers(l) for l in o.getvalue().splitlines() if l.strip()])]
        out.update(texts(w.s["A"]))
    except Exception as x:
        return dict(calls=done, err=type(x).__name__)
    return dict(out, calls=done)


def p30(out):
    jobs = pool(job, range(800 * Q))
    for x in jobs:
        if "err" in x:
            out.violation("; ".join(show(e) for e in x["calls"]) + "; printing", "printing raised " + x["err"], dict(events=x["calls"]))
    jobs = [x for x in jobs if "err" not in x]
    t = tlc_or_die("ReportTrace", "SPECIFICATION Spec\n", env={"JOBS": dump("reports.ndjson", jobs, True)}, timeout=800)
    if t.distinct != 2 * len(jobs):
        raise CheckError("not every text was judged")
    out.add(states=t.distinct, transitions=len(jobs), traces=len(jobs), reports=sum(len(x["dyn"]) for x in jobs),
            texts=sum(1 + len(x["mats"]) + len(x["udls"]) + len(x["lls"]) for x in jobs))
    for l in t.lines("FAIL"):
        k, _, clause = l.split("|")
        x = jobs[int(k) - 1]
        out.violation("; ".join(show(e) for e in x["calls"]) + ("; analyse_dynamic; print_dynamic_results()" if x["dyn"] else "; print"), clause, dict(events=x["calls"]))
    out.sample("; ".join(show(e) for e in jobs[0]["calls"])[:800] + ": " + str([[dec(a) for a in l] for d in jobs[0]["dyn"] for l in d["lines"]]))
