"""Decides properties of single analyses (AnalysisTrace.tla): P12 - P18."""
import json, re, time
from common import *
from gen import *
import impl
from impl import World, n, attempt, show


# ---------------------------------------------------------------- models
def ground(r, big=False):
    """A slope."""
    h = r.choice([1, 2, 3, 4, 5, 7.5, 10, r.uniform(0.5, 12), r.uniform(1, 6)])
    x = r.random()
    if x < 0.55:
        return boundary(h, r.choice([20, 30, 35, 45, 50, 60, 70, 80, r.uniform(18, 85)]), None)
    if x < 0.9:
        return boundary(h, None, h * r.choice([0.3, 0.5, 1, 1.5, 2, 3, r.uniform(0.2, 3)]))
    return boundary(h, r.choice([90, 89, 85]), None)


def strata(r, h, n=None):
    n = n or r.choice([1, 1, 2, 3, 4, 5])
    ds = set()
    while len(ds) < n:
        ds.add(r.choice([round(r.uniform(0.05, 1.4) * h, 3), r.uniform(0.05, 1.3) * h, round(h * r.choice([0.25, 0.5, 0.75, 1, 1.25]), 4)]))
    ms = [mat(r.choice([16, 17, 18, 19, 20, 21, 22.5, r.uniform(14, 24)]), r.choice([0, 15, 20, 25, 28, 30, 33, 35, 38, 42, r.uniform(10, 42)]),
              r.choice([0.5, 1, 2, 3, 5, 8, 15, r.uniform(0, 20)]), d) for d in ds]
    r.shuffle(ms)
    return ms


def loads(r, h, k=None, dyn=False):
    us, ls = [], []
    for _ in range(k or r.choice([1, 1, 2, 3])):
        off = r.choice([0, 0.2 * h, 0.5 * h, h, r.uniform(0, 1.5) * h, r.uniform(0, 0.8) * h])
        if r.random() < 0.5:
            us.append(udl(r.choice([5, 10, 20, 50, 100, r.uniform(2, 80)]), off, r.choice([None, 0.3 * h, h, 2 * h, r.uniform(0.05, 2) * h, 0.1 * h]),
                          "red", dyn and r.random() < 0.5))
        else:
            ls.append(ll(r.choice([5, 10, 20, 50, 100, r.uniform(2, 80)]), off, "blue", dyn and r.random() < 0.5))
    if r.random() < 0.15 and us:
        us.append(dict(us[0]))
    return ([udls(*us)] if us else []) + ([lls(*ls)] if ls else [])


def waters(r, h):
    return [water(r.choice([0, 0.25 * h, 0.5 * h, 0.75 * h, 0.9 * h, h, 1.1 * h, 1.5 * h, 2.5 * h, 3 * h, 10 * h, r.uniform(0, 1.3) * h, r.uniform(0, 1) * h]))]


def opts(r, slices=None, iters=None, mind=None):
    s = slices or r.choice([10, 10, 12, 17, 20, 25])
    z = r.random()
    if z < 0.75:
        return options(s, iters, mind, 1e-9, 500)
    if z < 0.9:
        return options(s, iters, mind, 1e-4, 50)
    if z < 0.95:
        return options(s, iters, mind, None, None)
    return options(s, iters, mind, r.choice([0.3, 0.1, 0.05, 0.01, r.uniform(0, 0.2), 0, 1e-12]), r.choice([None, None, 1, 2, 3, 50]))


def model(r, load=0.0, wet=0.0, mats=None, fixed=None):
    """Calls that build a model, the parts in any order, now and then on the way from another slope."""
    g = ground(r)
    h = arg(g["height"])
    parts = [[materials(*strata(r, h, mats))]]
    if len(parts[0][0]["items"]) > 1 and r.random() < 0.3:
        parts = [[materials(x)] for x in parts[0][0]["items"]]
    if r.random() < load:
        parts.append(loads(r, h))
    if r.random() < wet:
        parts.append(waters(r, h))
        if r.random() < 0.5:
            parts.append([wopts(False, r.choice([0, 0.25, 0.5, 0.8, 1, r.random()]))])
    if r.random() < 0.25:
        parts.append([extents(r.choice([None, 12 * h, 30 * h]), r.choice([None, 5 * h, 8 * h]))])
    r.shuffle(parts)
    ev = [x for p in parts for x in p]
    z = r.random()
    if z < 0.5:
        return [g] + ev, h
    if z < 0.8:
        k = r.randrange(len(ev) + 1)
        return ev[:k] + [g] + ev[k:], h
    return [ground(r)] + ev + [g], h


def circles(r, w, k):
    """User planes for the slope of world w."""
    out = []
    s = w.s["A"]
    for _ in range(k):
        z = r.random()
        if z < 0.8:
            p = r.plane_for(w)
            if p:
                out.append(p)
        elif z < 0.9:
            out.append(r.entryexit_for(w))
        else:
            ext, top = s._external_length, s.get_top_coordinates()[1]
            out.append(plane(r.uniform(0.01, 1.1) * ext, r.uniform(0.01, 2) * top, r.uniform(0.05, 1) * max(ext, top)))
    return out


def slivers(r, w, k):
    """Circles with crossings close together: next to crest or toe, or hardly below the ground."""
    out = []
    s = w.s["A"]
    (tx, ty), (bx, by) = s.get_top_coordinates(), s.get_bottom_coordinates()
    ext = s._external_length
    at = lambda x: ty if x <= tx else by if x >= bx else ty - (x - tx) * (ty - by) / (bx - tx)
    for _ in range(k):
        d = r.choice([0.003, 0.007, 0.013, 0.02, 0.03, 0.04, 0.06, 0.1, r.uniform(0, 0.1)])
        z = r.random()
        if z < 0.4:      # two ends close together, at the crest, the toe or on the way
            x = r.choice([tx - r.random() * d, bx - r.random() * d, r.uniform(0, ext - d)])
            a, b = max(x, 0), x + d
        elif z < 0.7:    # starts just behind the crest, ends anywhere
            a, b = tx - d, r.uniform(tx, ext)
        else:            # ends close to the toe
            a, b = r.uniform(0.2, 1) * tx, bx + r.choice([-1, 1]) * d
        if b <= a or b > ext:
            continue
        ya, yb = at(a), at(b)
        g = r.choice([0.3, 1, 3, 10, 100])
        cx, cy = (a + b) / 2 + (ya - yb) * g, (ya + yb) / 2 + (b - a) * g
        if cx > 0 and cy > 0:
            out.append(plane(cx, cy, ((cx - a) ** 2 + (cy - ya) ** 2) ** 0.5))
    return out


# ---------------------------------------------------------------- recording
def reported(s):
    return [impl.plane(p) for p in s._search]


def record(w, calls, maxfos):
    s = w.s["A"]
    mf = attempt(s.get_min_FOS)
    mc = attempt(s.get_min_FOS_circle)
    me = attempt(s.get_min_FOS_end_points)
    rep = reported(s)
    return dict(calls=calls, maxfos=num(maxfos), rep=rep,
                bycx=[i + 1 for i in sorted(range(len(rep)), key=lambda i: dec(rep[i]["cx"]))],
                min=[] if mf is None else [n(mf)], circle=[] if mc is None else [n(x) for x in mc],
                ends=[] if me is None else [n(x) for pt in me for x in pt])


class Jobs:
    def __init__(self, out, prop):
        self.out, self.prop = out, prop
        self.jobs, self.parts, self.skipped = [], [], 0

    def analyse(self, calls, maxfos=None, search=False, want=None, chunk=40):
        """Run calls and an analysis; what there is to judge becomes parts."""
        w = World()
        done = []
        todo = list(calls)[::-1]
        while todo:
            e = todo.pop()
            if callable(e):
                todo += list(e(w) or [])[::-1]
                continue
            w.call(e)
            done.append(e)
        every = None
        if maxfos is not None:            # what the analysis reports without the limit
            outcome, _ = w.call(analyse(None))
            if outcome == "ok":
                every = [n(p["FOS"]) for p in w.s["A"]._search]
                if callable(maxfos):
                    maxfos = maxfos([dec(x) for x in every])
        e = analyse(maxfos)
        outcome, _ = w.call(e)
        if outcome != "ok":
            self.out.violation("; ".join(show(x) for x in done + [e]), f"the analysis raised {outcome}", dict(events=done + [e]))
            return w
        job = record(w, done, maxfos)
        job["all"] = [] if every is None or maxfos is None else [every]
        self.jobs.append(job)
        j = len(self.jobs)
        N = len(job["rep"])
        add = lambda kind, a, b: self.parts.append(dict(j=j, kind=kind, a=a, b=b))
        add("list", 0, 0)
        # at least as many as the specification finds (surplus parts are empty)
        user = max(len(w.s["A"]._individual_planes), sum(1 if e["op"] == "plane" else e["n"] for e in done if e["op"] in ("plane", "entryexit")))
        if "rmplanes" in [e["op"] for e in done] and not w.s["A"]._individual_planes:
            user = 0
        if want is None or "plane" in want:
            if search and want is not None and want.get("plane"):
                # a sample of the planes found
                for i in sorted(want["rnd"].sample(range(1, N + 1), min(N, want["plane"]))):
                    add("plane", i, i)
            else:
                for a in range(1, N + 1, chunk):
                    add("plane", a, min(N, a + chunk - 1))
        if user:
            for a in range(1, user + 1, chunk):
                add("user", a, min(user, a + chunk - 1))
        elif search and (want is None or "entry" in want):
            # the specification knows how many entry points there are
            for a in range(1, 200, 1):
                if a > self.entries(w):
                    break
                add("entry", a, a)
        return w

    def entries(self, w):
        """At least the number of entry points (surplus parts are empty)."""
        s = w.s["A"]
        return int((s._iterations / 5) ** 0.5) + len(s._udls) + len(s._lls) + 3

    def judge(self, timeout=800):
        out = self.out
        if not self.parts:
            return
        # big parts first
        order = sorted(range(len(self.parts)), key=lambda i: self.parts[i]["kind"] not in ("entry", "plane"))
        parts = [self.parts[i] for i in order]
        env = {"JOBS": dump("jobs.ndjson", self.jobs, True), "PARTS": dump("parts.ndjson", parts, True)}
        r = tlc_or_die("AnalysisTrace", "SPECIFICATION Spec\n", env=env, timeout=timeout)
        if r.distinct != 2 * len(parts):
            raise CheckError(f"{r.distinct} of {2 * len(parts)} states")
        out.add(states=r.distinct, transitions=len(parts), traces=len(self.jobs), analyses=len(self.jobs),
                planes_reported=sum(len(j["rep"]) for j in self.jobs), parts_judged=len(parts), judge_wall_s=round(r.wall, 1))
        for l in r.lines("COUNT"):
            what, k = l.split("|")
            out.add(**{what.replace(" ", "_").replace(",", ""): int(k)})
        seen = set()
        for l in r.lines("FAIL"):
            k, props, clause = l.split("|", 2)
            k = int(k)
            ps = re.findall(r"P\d\d", props)
            if self.prop not in ps:
                for p in ps:
                    out.other[p] = out.other.get(p, 0) + 1
                continue
            if (k, clause) in seen:
                continue
            seen.add((k, clause))
            job = self.jobs[k - 1] if k else None
            out.violation("; ".join(show(e) for e in job["calls"]) if job else "specification", clause, dict(events=job and job["calls"], maxfos=job and job["maxfos"]))


# ---------------------------------------------------------------- per property
Q = 1 if not THOROUGH else 12


def rnd(p, i):
    return Rnd(f"{SEED}/{p}/{i}")


def planes_job(J, r, calls, k=12, maxfos=None):
    J.analyse(list(calls) + [lambda w: circles(r, w, k)], maxfos)


def p12(out):
    J = Jobs(out, "P12")
    for i in range(350 * Q):
        r = rnd("P12", i)
        calls, h = model(r, 0.1, 0.1)
        tail = []
        if r.random() < 0.4:      # the model changes after the planes were added
            tail = [r.choice([ground(r), extents(r.uniform(5, 20) * h, None), extents(None, r.uniform(3, 9) * h),
                              materials(mat(uw=20, d=h * 4)), udls(udl(5, h * 3, h * 4)), lls(ll(7, 6 * h))])]
        def many(w, r=r):
            return circles(r, w, 8) + slivers(r, w, 5) + [p for p in (r.plane_for(w) for _ in range(16)) if p]
        J.analyse(calls + [opts(r, 10), many] + tail)
    for i in range(6 * Q):
        r = rnd("P12s", i)
        calls, h = model(r, 0.3, 0, mats=2)
        J.analyse(calls + [options(10, 500, None, 1e-6, 100)], search=True, want=dict(plane=150, rnd=r))
    J.judge()


def bishop(out, prop, load, wet, N=500):
    J = Jobs(out, prop)
    for i in range(N * Q):
        r = rnd(prop, i)
        calls, h = model(r, load, wet)
        if r.random() < 0.04:
            calls = [c for c in calls if c["op"] != "materials"]
        if r.random() < 0.06:
            calls = calls + [rmmaterial(all=True), materials(mat(uw=19, phi=r.choice([0, 30]), c=0, d=h))]
        planes_job(J, r, calls + [opts(r)], 12)
    for i in range(3 * Q):
        r = rnd(prop + "s", i)
        calls, h = model(r, load, wet)
        J.analyse(calls + [options(r.choice([10, 25, 50]), 500, None, 1e-9, 500)], search=True, want=dict(plane=60, rnd=r))
    J.judge()


def p16(out):
    bishop(out, "P16", 0, 0)


def edge_loads(r, w):
    """Line loads (and now and then the end of a uniform one) where slices of the planes meet."""
    s = w.s["A"]
    tx, n, out = s.get_top_coordinates()[0], s._slices, []
    for p in r.sample(s._individual_planes, min(3, len(s._individual_planes))):
        try:        # only chooses where loads go: without this helper they lie near the edges of the slices
            i = s._get_circle_external_intersection(p["c_x"], p["c_y"], p["radius"])
            a, b = i[0][0], i[1][0]
        except Exception:
            continue
        ks = [k for k in range(1, n) if 0 <= a + (b - a) * k / n <= tx]
        if not ks:
            continue
        x = tx - (a + (b - a) * r.choice(ks) / n)
        x = r.choice([x, x, round(x, 6), round(x, 2)])
        out.append(lls(ll(r.choice([5, 20, 100]), x)) if r.random() < 0.8 else udls(udl(r.choice([5, 20]), x, r.choice([None, (b - a) / n, 0.3]))))
    return out


def p17(out):
    J = Jobs(out, "P17")
    for i in range(60 * Q):
        r = rnd("P17e", i)
        h = r.choice([3, 4, 5, 6])
        calls = [boundary(h, None, r.choice([3, 4, 5, 6])), materials(*strata(r, h, 1)), opts(r, r.choice([10, 20, 25]))]
        def grid(w, r=r):
            s = w.s["A"]
            tx, bx = s.get_top_coordinates()[0], s.get_bottom_coordinates()[0]
            return [entryexit(tx - r.choice([1, 2, 3, 4, 5]), bx + r.choice([0, 0, 1, 2]), 5) for _ in range(3)]
        J.analyse(calls + [grid, lambda w, r=r: edge_loads(r, w)])
    J.judge()
    bishop(out, "P17", 1, 0.15)


def p18(out):
    bishop(out, "P18", 0.2, 1)


LARGE = 2 if Q == 1 else 8


def search_models(prop, N, load):
    for i in range(N):
        r = rnd(prop, i)
        calls, h = model(r, load, 0.2, mats=r.choice([1, 2]))
        mind = r.choice([None, None, 0.5 * h, h, 2 * h, r.uniform(0, 3) * h])
        iters = r.choice([500, 500, 560, 640, 777])
        if i >= N - LARGE:      # more than a few radii per pair
            iters = r.choice([1300, 2000, 4000, 4801, 6400])
        tail = [options(10, iters, mind, 1e-6, 100)]
        def lim(w, r=r):
            if r.random() < 0.25:
                return []
            s = w.s["A"]
            tx, bx, ext = s.get_top_coordinates()[0], s.get_bottom_coordinates()[0], s._external_length
            f = r.uniform
            k = {}
            if r.random() < 0.6:
                k["left"] = tx * f(0, 0.95)
            if r.random() < 0.5:
                k["lright"] = tx * f(0.6, 1)
            if r.random() < 0.5:
                k["rleft"] = r.choice([bx, tx + (bx - tx) * f(0, 1), bx + (ext - bx) * f(0, 0.5)])
            if r.random() < 0.6:
                k["right"] = r.choice([bx, bx + (ext - bx) * f(0, 0.6), tx + (bx - tx) * f(0.3, 1)])
            return [limits(**k)]
        yield r, calls + tail + [lim], h


def p13(out):
    J = Jobs(out, "P13")
    for r, calls, h in search_models("P13", 40 * Q, 0.6):
        J.analyse(calls, r.choice([None, None, 3]), search=True, want=dict(plane=0))
    J.judge()


def p14(out):
    J = Jobs(out, "P14")
    for r, calls, h in search_models("P14", 32 * Q, 0.5):
        J.analyse(calls, None, search=True)
    # every slope can be searched, whatever its measures and limits
    for i in range(400 * Q):
        r = rnd("P14g", i)
        h = r.uniform(0.3, 25)
        calls = [boundary(h, r.uniform(5, 90), None) if r.random() < 0.6 else boundary(h, None, r.uniform(0, 4) * h)]
        if r.random() < 0.3:
            calls.append(extents(r.uniform(1, 30) * h, r.uniform(1, 9) * h))
        if r.random() < 0.4:
            calls += loads(r, h)
        if r.random() < 0.5:
            calls.append(materials(*strata(r, h, 1)))
        calls.append(options(10, 500, r.uniform(4, 50) * h, 1e-4, 50))
        if r.random() < 0.4:
            calls.append(lambda w, r=r: [r.limits_for(w, bad=0)])
        J.analyse(calls, r.choice([None, 2]), want={})
    J.judge()


def p15(out):
    J = Jobs(out, "P15")
    for r, calls, h in search_models("P15", 10 * Q, 0.4):
        J.analyse(calls, r.choice([None, 1, 2, 1.5]), search=True)
    for i in range(200 * Q):
        r = rnd("P15u", i)
        calls, h = model(r, 0.4, 0.4)
        if r.random() < 0.04:
            calls = calls + [rmmaterial(all=True), materials(mat(uw=19, phi=0, c=0, d=h))]
        pick = lambda fs, r=r: r.choice(fs) if fs else 1.25
        planes_job(J, r, calls + [opts(r)], 14, r.choice([None, None, 1, 1.5, 2, 3, 0.5, 0, pick, pick, pick]))
    J.judge()
