"""Decides P22, P23 and P29: figures read back from plotly and judged by FigureTrace.tla."""
import re, contextlib, io
from common import *
from gen import *
import impl
from impl import World, n, attempt, show
import analysis, apiprops

Q = 1 if not THOROUGH else 10


# ---------------------------------------------------------------- reading a figure
def fl(x):
    try:
        return enc(float(x))
    except (TypeError, ValueError):
        return enc(float("nan"))


def pts(t):
    x, y = t.get("x"), t.get("y")
    return [[fl(a), fl(b)] for a, b in zip(list(x) if x is not None else [], list(y) if y is not None else [])]


def num_in(text, pat):
    m = re.search(pat, text or "")
    return fl(m.group(1)) if m else fl(None)


F = r"(-?[0-9.]+(?:e[-+]?\d+)?)"


HEADS = [("MATERIAL", "name"), ("COLOR", "col"), ("kN/m3", "uw"), ("kPa", "c"), ("deg", "phi")]


def hover(text):
    """What the label of a stratum says."""
    p = str(text or "").rsplit("<br>", 3)
    p += [""] * (4 - len(p))
    v = [re.search(r"(\S+) " + u + "$", q) for q, u in zip(p[1:], ("kN/m3", "kPa", "degrees"))]
    return dict(name=p[0], uw=fl(v[0] and v[0].group(1)), c=fl(v[1] and v[1].group(1)), phi=fl(v[2] and v[2].group(1)))


def read(fig):
    d = fig.to_dict()
    data, lay = list(d["data"]), d["layout"]
    shapes, notes = list(lay.get("shapes") or []), list(lay.get("annotations") or [])
    o = dict(outline=[], strata=[], boxes=[], arrows=[], labels=[], water=[], levels=[], opens=[], closes=[], bars=[],
             heads=[], table=[], patches=[], swatches=[], marks=[], lines=[], centres=[], planes=[], legend=[])
    for i, t in enumerate(data):
        line = t.get("line") or {}
        meta = t.get("meta")
        if t.get("fill") == "toself":
            meta = list(meta) if meta is not None else []
            meta += [None] * (4 - len(meta))
            o["strata"].append(dict(uw=fl(meta[0]), c=fl(meta[1]), phi=fl(meta[2]), name=str(meta[3]), col=str(t.get("fillcolor")), pts=pts(t),
                                    hover=hover(t.get("name"))))
        elif line.get("color") == "blue" and line.get("width") == 4:
            o["water"].append(pts(t))
        elif "text" in (t.get("mode") or ""):
            h = t.get("hovertemplate") or ""
            o["centres"].append(dict(x=fl(t["x"][0]), y=fl(t["y"][0]), text=fl((list(t.get("text") or [None]))[0]),
                                     cx=num_in(h, r"Centre: \(" + F), cy=num_in(h, r"Centre: \([^,]*, " + F),
                                     r=num_in(h, "Radius: " + F), fos=num_in(h, "FOS: " + F)))
        elif meta is not None:
            o["planes"].append(dict(pts=pts(t), fos=fl(list(meta)[0]), col=str(line.get("color")), who=1))
        elif i == 0:
            o["outline"] = pts(t)
        else:
            o["lines"].append(dict(pts=pts(t), col=str(line.get("color"))))
    arrows = set()
    legend = []
    for s in shapes:
        line = s.get("line") or {}
        if s.get("xref") == "paper" and s.get("type") == "rect" and line.get("width") == 0.2:
            a, b = sorted((float(s["y0"]), float(s["y1"])))
            legend.append((-b, -a, str(s.get("fillcolor"))))
        elif s.get("xref") in ("paper", "x domain") and s.get("type") == "rect" and s.get("fillcolor"):
            a, b = sorted((float(s["x0"]), float(s["x1"])))
            c, d = sorted((float(s["y0"]), float(s["y1"])))
            o["patches"].append(dict(x0=fl(a), x1=fl(b), y0=fl(c), y1=fl(d), col=str(s["fillcolor"])))
        if s.get("xref") != "x":
            continue
        if s.get("type") == "rect":
            o["boxes"].append(dict(x0=fl(s["x0"]), x1=fl(s["x1"]), col=str(s.get("fillcolor")), y=fl(s.get("yanchor"))))
        elif s.get("type") == "line" and s.get("xsizemode") == "pixel" and s.get("x0") == 0 == s.get("x1") and line.get("width"):
            arrows.add((float(s["xanchor"]), str(line.get("color")), float(s["yanchor"])))
    o["arrows"] = [dict(x=fl(x), col=c, y=fl(y)) for x, c, y in sorted(arrows)]
    legend.sort()
    o["legend"] = [c for _, _, c in legend]
    o["swatches"] = [dict(y0=fl(-b), y1=fl(-a), col=c) for a, b, c in legend]
    rows = {}
    for a in notes:
        text = a.get("text")
        text = "" if text is None else str(text)
        if a.get("xref") == "x domain":
            rows.setdefault(round(float(a["y"]), 6), []).append((float(a["x"]), text))
            continue
        if a.get("xref") == "paper":
            if not text.startswith("<b>"):
                o["marks"].append(dict(y=fl(a["y"]), v=fl(text)))
            continue
        p = [fl(a.get("x")), fl(a.get("y"))]
        m = re.fullmatch(F + " (kPa|kN/m)", text)
        if m:
            o["labels"].append(dict(x=p[0], y=p[1], unit=m.group(2), v=fl(m.group(1))))
        elif text == "▼":
            o["levels"].append(p[1])
        elif text in "▶◀|" and text:
            o[{"▶": "opens", "◀": "closes", "|": "bars"}[text]].append(p)
    for k, y in enumerate(sorted(rows, reverse=True)):
        r = sorted(rows[y], key=lambda z: z[0])
        if k == 0:
            o["heads"] = [dict(x=fl(x), what=next((v for p, v in HEADS if p in t), "?")) for x, t in r]
            continue
        t = [t for _, t in r] + ["?"] * (4 - len(r))
        o["table"].append(dict(y=fl(y), x=[fl(x) for x, _ in r], name=t[0], uw=fl(t[1]), c=fl(t[2]), phi=fl(t[3])))
    o["title"] = any(a.get("xref") == "paper" and "Legend" in str(a.get("text")) for a in notes)
    return o


def witness(fig, rep):
    """Which reported plane each line of fig shows: an unused one with these end points and this factor of safety."""
    used = set()
    key = {}
    for i, p in enumerate(rep):
        key.setdefault((round(dec(p["lx"]), 4), round(dec(p["rx"]), 4), round(dec(p["fos"]), 3)), []).append(i)
    for t in fig["planes"]:
        if not t["pts"]:
            continue
        k = (round(dec(t["pts"][0][0]), 4), round(dec(t["pts"][-1][0]), 4), round(dec(t["fos"]), 3))
        c = [i for i in key.get(k, []) if i not in used]
        if len(c) > 1:
            # the one whose circle the middle of the line is on
            x, y = (dec(v) for v in t["pts"][len(t["pts"]) // 2])
            c.sort(key=lambda i: abs(((x - dec(rep[i]["cx"])) ** 2 + (y - dec(rep[i]["cy"])) ** 2) ** 0.5 - dec(rep[i]["r"])))
        if c:
            t["who"] = c[0] + 1
            used.add(c[0])
    fig["drawn"] = [t["who"] for t in fig["planes"]]


def parts_of(job, j, kinds):
    """The parts of job j to judge."""
    ps = [dict(j=j, kind=k, a=0, b=0) for k in kinds]
    if "all" in kinds:
        ps += [dict(j=j, kind="planes", a=a, b=min(a + 39, len(job["fig"]["planes"]))) for a in range(1, len(job["fig"]["planes"]) + 1, 40)]
    return ps


# ---------------------------------------------------------------- jobs
class Figures:
    def __init__(self, out, prop):
        self.out, self.prop = out, prop
        self.jobs, self.parts = [], []

    def world(self, calls):
        w, done = World(), []
        todo = list(calls)[::-1]
        while todo:
            e = todo.pop()
            if callable(e):
                e = e(w) or []
                todo += [e] if isinstance(e, dict) else list(e)[::-1]
                continue
            w.call(e)
            if e["s"] == "A":
                done.append(e)
        return w, done

    def plot(self, w, done, kind, maxplot="default", table=True, legend=False):
        """Draw a figure of slope A; None if that fails (which is reported).  table, legend: None for the default."""
        s = w.s["A"]
        k = {} if kind != "all" or maxplot == "default" else dict(max_fos=maxplot)
        k.update({} if table is None else dict(material_table=table))
        k.update({} if legend is None else dict(legend=legend))
        what = "; ".join(show(e) for e in done) + f"; {kind} plot {k}"
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                fig = read({"boundary": s.plot_boundary, "critical": s.plot_critical, "all": s.plot_all_planes}[kind](**k))
        except Exception as x:
            self.out.violation(what, f"the {kind} plot raised {type(x).__name__}", dict(events=done, plot=kind, args=k))
            return None
        return fig

    def add(self, w, done, kind, maxplot="default", table=True, legend=False):
        s = w.s["A"]
        fig = self.plot(w, done, kind, maxplot, table, legend)
        if fig is None:
            return
        rep = analysis.reported(s) if kind != "boundary" else []
        if kind != "boundary" and len(fig["legend"]) != 51:
            f2 = self.plot(w, done, "boundary", legend=True)
            fig["legend"] = f2["legend"] if f2 else []
        witness(fig, rep)
        said = {None: "default", True: "yes", False: "no"}
        self.jobs.append(dict(calls=done, kind=kind, maxplot=num(5 if maxplot == "default" else maxplot), rep=rep, fig=fig,
                              table=said[table], legend=said[legend]))
        j = len(self.jobs)
        if self.prop == "P29":
            self.parts.append(dict(j=j, kind="notes", a=0, b=0))
            return
        kinds = [] if kind == "boundary" else ["critical"]
        if kind == "boundary" or self.prop == "P22":
            kinds.append("boundary")
        if kind == "all":
            kinds.append("all")
        self.parts += parts_of(self.jobs[-1], j, kinds)

    def judge(self):
        out = self.out
        self.parts.sort(key=lambda p: p["kind"] != "planes")
        r = tlc_or_die("FigureTrace", "SPECIFICATION Spec\n", timeout=800,
                       env={"JOBS": dump("figs.ndjson", self.jobs, True), "PARTS": dump("figparts.ndjson", self.parts, True)})
        if r.distinct != 2 * len(self.parts):
            raise CheckError("not every figure was judged")
        out.add(states=r.distinct, transitions=len(self.parts), traces=len(self.jobs), figures=len(self.jobs),
                lines_judged=sum(len(j["fig"]["planes"]) + len(j["fig"]["lines"]) for j in self.jobs),
                strata_judged=sum(len(j["fig"]["strata"]) for j in self.jobs))
        seen = set()
        for l in r.lines("FAIL"):
            k, prop, clause = l.split("|")
            if prop != self.prop:
                out.other[prop] = out.other.get(prop, 0) + 1
                continue
            if (k, clause) in seen:
                continue
            seen.add((k, clause))
            x = self.jobs[int(k) - 1]
            out.violation("; ".join(show(e) for e in x["calls"]) + f"; {x['kind']} plot (table: {x['table']}, legend: {x['legend']})", clause, dict(events=x["calls"], plot=x["kind"], max_fos=x["maxplot"]))
        x = self.jobs[-1]
        out.sample("; ".join(show(e) for e in x["calls"])[:1500] + f"; {x['kind']} plot: {len(x['fig']['strata'])} strata, {len(x['fig']['planes'])} planes")


W22 = dict(boundary=8, extents=5, materials=8, rmmaterial=3, udls=5, rmudls=2, lls=5, rmlls=2, water=5, rmwater=1, limits=4, rmlimits=1, wopts=1, options=1)


def one22(i):
    """Figures of history i."""
    J = Figures(Outcome("P22"), "P22")
    r = Rnd(f"{SEED}/P22/{i}")
    if i % 30 == 29:      # the boundary is part of the other plots
        calls, h = analysis.model(r, 0.5, 0.5)
        w, done = J.world(calls + [analysis.opts(r, 10), lambda w: analysis.circles(r, w, 6)])
        w.call(analyse(None))
        if attempt(w.s["A"].get_min_FOS) is not None:
            J.add(w, done, r.choice(["critical", "all"]))
        return J
    walk = apiprops.Walk(f"{SEED}/P22w/{i}", W22)
    if i % 3 == 0:
        calls, h = analysis.model(r, 0.6, 0.6)
        calls = calls + [lambda w: r.limits_for(w, bad=0)] * r.choice([0, 1])
    else:
        calls = [walk.step() for _ in range(r.choice([3, 6, 10, 16]))]
    w, done = J.world(calls)
    if r.random() < 0.1:
        J.plot(w, done, "boundary")
    J.add(w, done, "boundary", table=r.random() < 0.7, legend=r.random() < 0.3)
    return J


def one23(i):
    J = Figures(Outcome("P23"), "P23")
    r = Rnd(f"{SEED}/P23/{i}")
    calls, h = analysis.model(r, 0.3, 0.3)
    if i % 20 == 19:
        w, done = J.world(calls + [options(10, 500 if i != 59 else 3500, None, 1e-4, 50)])
        w.call(analyse(r.choice([None, 5])))
        if attempt(w.s["A"].get_min_FOS) is not None:
            J.add(w, done, "all", r.choice(["default", None, 2, 3]))
        return J
    if r.random() < 0.15:       # very strong or very weak ground
        calls = calls + [rmmaterial(all=True), materials(mat(uw=18, phi=r.choice([0, 20, 45]), c=r.choice([0, 0, 100, 1000, 50000]), d=h))]
    w, done = J.world(calls + [analysis.opts(r, 10), lambda w: analysis.circles(r, w, 14)])
    w.call(analyse(r.choice([None, None, None, 5, 2])))
    s = w.s["A"]
    if attempt(s.get_min_FOS) is None:
        return J
    fs = [float(p["FOS"]) for p in s._search]
    if r.random() < 0.25:
        J.add(w, done, "critical", table=r.random() < 0.5, legend=r.random() < 0.5)
    else:
        J.add(w, done, "all", r.choice(["default", None, 1, 2, 5, 10, r.choice(fs), fs[-1], fs[0], 0.5 * (fs[0] + fs[-1]), 0]),
              table=r.random() < 0.5, legend=r.random() < 0.5)
    return J


def many(out, one, n):
    """The figures of histories 0..n-1, drawn by all cores."""
    J = Figures(out, out.prop)
    for K in pool(one, range(n)):
        at = len(J.jobs)
        J.jobs += K.jobs
        J.parts += [dict(p, j=p["j"] + at) for p in K.parts]
        out.viol += K.out.viol
    J.judge()


def one29(i):
    """A model, and the same model after some edits, with all plots and options."""
    J = Figures(Outcome("P29"), "P29")
    r = Rnd(f"{SEED}/P29/{i}")
    walk = apiprops.Walk(f"{SEED}/P29w/{i}", W22)
    flags = lambda: dict(table=r.choice([None, True, False]), legend=r.choice([None, True, False]))
    if i % 2:
        w, done = J.world([walk.step() for _ in range(r.choice([3, 6, 10, 16]))])
        J.add(w, done, "boundary", **flags())
        return J
    calls, h = analysis.model(r, 0.5, 0.3)
    w, done = J.world(calls + [analysis.opts(r, 10), lambda w: analysis.circles(r, w, 3)])
    w.call(analyse(None))
    J.add(w, done, "boundary", **flags())
    if attempt(w.s["A"].get_min_FOS) is not None:
        J.add(w, done, "critical", **flags())
        J.add(w, done, "all", r.choice(["default", None, 2]), **flags())
    return J


def p22(out):
    many(out, one22, 600 * Q)


def p23(out):
    many(out, one23, 200 * Q)


def p29(out):
    many(out, one29, 400 * Q)
