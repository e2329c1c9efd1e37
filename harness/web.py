"""Decides P24 and P25: the web application, served in process.

Web.tla is explored exhaustively and every transition is performed by real browsers (django.test.Client); random
histories are recorded as well; WebForms.tla says what forms mean; WebTrace.tla judges.
"""
import contextlib, hashlib, io, json, logging, os, re
from html.parser import HTMLParser
from common import *
from gen import *
import impl
from impl import World, n, attempt, show
import analysis, figures
import dynamic as D

Q = 1 if not THOROUGH else 8
EMPTY = 10000


# ---------------------------------------------------------------- the site
_site = None
IMAGES = {}          # document handed out -> figure it shows


def site():
    """The web application of the repository, one per process, with a database of its own."""
    global _site
    if _site == os.getpid():
        return
    d = tempfile.mkdtemp(prefix="site-", dir=scratch())
    with open(os.path.join(d, f"websettings{os.getpid()}.py"), "w") as f:
        f.write("from engineering.settings import *\n"
                "ALLOWED_HOSTS = ['*']\nDEBUG = False\n"
                "STORAGES = {'default': {'BACKEND': 'django.core.files.storage.FileSystemStorage'},\n"
                "            'staticfiles': {'BACKEND': 'django.contrib.staticfiles.storage.StaticFilesStorage'}}\n"
                "MIDDLEWARE = [m for m in MIDDLEWARE if 'whitenoise' not in m]\n"
                "SECURE_SSL_REDIRECT = False\nSESSION_COOKIE_SECURE = False\nCSRF_COOKIE_SECURE = False\n")
    sys.path.insert(0, d)
    os.environ["SECRET_KEY"] = "x"
    os.environ["DATABASE_URL"] = f"sqlite:///{d}/db.sqlite3"
    os.environ["DJANGO_SETTINGS_MODULE"] = f"websettings{os.getpid()}"
    import django
    django.setup()
    logging.disable(logging.CRITICAL)
    from django.core.management import call_command
    with contextlib.redirect_stdout(io.StringIO()):
        call_command("migrate", verbosity=0)
    # drawing documents takes seconds; the figure is what counts
    import plotly.io, plotly.graph_objects as go

    def to_image(fig, *a, **k):
        doc = b"document %d of %d for the check" % (len(IMAGES), os.getpid())
        IMAGES[doc] = (fig if hasattr(fig, "to_dict") else go.Figure(fig), k.get("format", a[0] if a else None))
        return doc
    go.Figure.to_image = to_image
    plotly.io.to_image = to_image
    try:        # write_image
        from plotly.io import _kaleido
        _kaleido.to_image = to_image
    except ImportError:
        pass
    _site = os.getpid()


class Page(HTMLParser):
    """Data blocks and form values of a page."""

    def __init__(self, text):
        super().__init__()
        self.blocks, self.fields, self._b, self._select = {}, {}, None, None
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        a = {}
        for k, v in attrs:
            a.setdefault(k, v if v is not None else "")
        if tag == "script" and a.get("type") == "application/json":
            self._b = a.get("id", "")
            self.blocks[self._b] = ""
        elif tag == "input" and a.get("name") and a.get("type") not in ("submit", "button"):
            if a.get("type") == "checkbox":
                v = ("on" if "checked" in a else "")
            else:
                v = a.get("value", "")
            if a["name"] != "csrfmiddlewaretoken":
                self.fields.setdefault(a["name"], v)
        elif tag == "select":
            self._select = a.get("name")
            self._first = None
        elif tag == "option" and self._select:
            if self._first is None:
                self._first = a.get("value", "")
                self.fields.setdefault(self._select, self._first)
            if "selected" in a:
                self.fields[self._select] = a.get("value", "")

    def handle_data(self, data):
        if self._b is not None:
            self.blocks[self._b] += data

    def handle_endtag(self, tag):
        if tag == "script":
            self._b = None
        elif tag == "select":
            self._select = None


def digest(x):
    return hashlib.md5(json.dumps(x, sort_keys=True).encode()).hexdigest()


_read = {}


def read_figure(js):
    """What a figure in JSON shows."""
    k = hashlib.md5(js.encode()).hexdigest()
    if k not in _read:
        from plotly.io import from_json
        _read[k] = figures.read(from_json(js))
    return json.loads(json.dumps(_read[k]))


def split(fig):
    """A figure without the lines of its planes, and these lines."""
    return dict(fig, planes=[]), fig["planes"]


class Shown:
    """What a page shows."""

    def __init__(self, text):
        p = Page(text)
        self.search = json.loads(p.blocks["search"])
        self.plot = json.loads(p.blocks["plot_json"])
        self.legend = json.loads(p.blocks.get("COLOUR_FOS_DICT", "{}"))
        self.fields = p.fields

    def figure(self):
        return read_figure(self.plot)

    def planes(self):
        return [impl.plane(p) for p in self.search]

    def answer(self):
        return dict(k="page", planes=digest(self.search), figure=digest(split(self.figure())[0]), fields=self.fields)


class Browser:
    def __init__(self):
        site()
        from django.test import Client
        self.c = Client(raise_request_exception=False)
        self.next = ""
        self.page = None        # last page shown
        self.report = None      # last report: the figure

    def _answer(self, r, follow=True):
        if r.status_code >= 500:
            self.next = ""
            return dict(k="error", code=r.status_code)
        if r.status_code in (301, 302, 303, 307, 308):
            to = r["Location"]
            if follow:
                self.next = to
            path = re.sub(r"^https?://[^/]*", "", to).split("?")[0].rstrip("/")
            return dict(k="to", to={"": "index", "/reset": "reset"}.get(path, path))
        if follow:
            self.next = ""
        if r.status_code != 200:
            return dict(k="odd", code=r.status_code)
        if r.headers.get("Content-Type", "").startswith("application/pdf"):
            img = IMAGES.get(r.content)
            if img is None or img[1] != "pdf" or "attachment" not in r.headers.get("Content-Disposition", ""):
                return dict(k="odd", code=200)
            fig = figures.read(img[0])
            self.report = fig
            base, below = split(fig)
            return dict(k="report", base=digest(base), below=digest(below))
        try:
            self.page = Shown(r.content.decode())
            return self.page.answer()
        except (KeyError, ValueError, TypeError):
            return dict(k="odd", code=200)

    def ask(self, q, forms):
        k = q["k"]
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            if k == "get":
                return self._answer(self.c.get("/"))
            if k == "post":
                return self._answer(self.c.post("/", forms[q["i"] - 1]))
            if k == "reset":
                return self._answer(self.c.get("/reset"))
            if k == "report":
                return self._answer(self.c.get("/pdf/" + q["f"]))
            if k == "other":
                a = self._answer(self.c.put("/"))
                self.next = ""
                return a
            if k == "follow":
                return self._answer(self.c.get(self.next)) if self.next else dict(k="stuck")
        self.c.cookies.clear()
        self.next = ""
        return dict(k="none")


# ---------------------------------------------------------------- forms
def post(height=3, angle=45, length=3, mats=((20, 35, 2, 5, "", ""),), udls=(), lls=(), water=None, lim=None, inner=None,
         analysis="normal", by="length", crit="1.5", shown="2", iters=500, slices=10, **kw):
    """The fields of a form; udls (q, off, len, col, dyn), lls (q, off, col, dyn)."""
    d = {"slope-height": height, "slope-angle": angle, "slope-length": length,
         "material-TOTAL_FORMS": len(mats), "material-INITIAL_FORMS": 0, "udl-TOTAL_FORMS": len(udls), "udl-INITIAL_FORMS": 0,
         "lineload-TOTAL_FORMS": len(lls), "lineload-INITIAL_FORMS": 0}
    for i, m in enumerate(mats):
        d.update({f"material-{i}-{f}": v for f, v in zip(("unit_weight", "friction_angle", "cohesion", "depth_to_bottom", "name", "color"), m)})
    for i, u in enumerate(udls):
        d.update({f"udl-{i}-{f}": v for f, v in zip(("magnitude", "offset", "length", "color"), u)})
        if u[4]:
            d[f"udl-{i}-dynamic_offset"] = "on"
    for i, u in enumerate(lls):
        d.update({f"lineload-{i}-{f}": v for f, v in zip(("magnitude", "offset", "color"), u)})
        if u[3]:
            d[f"lineload-{i}-dynamic_offset"] = "on"
    if water is not None:
        d["watertable-consider_water"] = "on"
    d["watertable-water_depth"] = 1 if water is None else water
    if lim:
        d["limits-consider_limits"] = "on"
    if inner:
        d["limits-consider_internal_limits"] = "on"
    lim, inner = lim or (0, 8), inner or (4, 6)
    d.update({"limits-left_x": lim[0], "limits-right_x": lim[1], "limits-left_x_right": inner[0], "limits-right_x_left": inner[1],
              "options-analysis_choice": analysis, "options-slope_choice": by, "options-critical_FOS": crit,
              "options-max_display_FOS": shown, "options-iterations": iters, "options-slices": slices})
    d.update(kw)
    return {k: str(v) for k, v in d.items() if v is not None}


def value(s):
    """A field as an argument."""
    if s is None or s == "":
        return num(None)
    try:
        v = float(s)
    except ValueError:
        return dict(k="bad", b=repr(s))
    if v != v or v in (float("inf"), float("-inf")):
        return dict(k="bad", b=repr(s))
    return num(v)


def whole(s):
    v = value(s)
    return num(int(dec(v["v"]))) if v["k"] == "n" and dec(v["v"]) == int(dec(v["v"])) else v


def fields(d):
    """The record of a form for WebForms.tla."""
    g = lambda k: value(d.get(k))
    mgmt = all(d.get(f"{p}-{k}", "").isdigit() for p in ("material", "udl", "lineload") for k in ("TOTAL_FORMS", "INITIAL_FORMS"))
    rows = lambda p: range(int(d[f"{p}-TOTAL_FORMS"]) if mgmt else 0)
    return dict(
        mgmt=mgmt, height=g("slope-height"), angle=g("slope-angle"), length=g("slope-length"),
        mats=[dict(uw=g(f"material-{i}-unit_weight"), phi=g(f"material-{i}-friction_angle"), c=g(f"material-{i}-cohesion"),
                   d=g(f"material-{i}-depth_to_bottom"), name=d.get(f"material-{i}-name", ""), col=d.get(f"material-{i}-color", "")) for i in rows("material")],
        udls=[dict(q=g(f"udl-{i}-magnitude"), off=g(f"udl-{i}-offset"), len=g(f"udl-{i}-length"), col=d.get(f"udl-{i}-color", ""),
                   dyn=bool(d.get(f"udl-{i}-dynamic_offset"))) for i in rows("udl")],
        lls=[dict(q=g(f"lineload-{i}-magnitude"), off=g(f"lineload-{i}-offset"), col=d.get(f"lineload-{i}-color", ""),
                  dyn=bool(d.get(f"lineload-{i}-dynamic_offset"))) for i in rows("lineload")],
        wet=bool(d.get("watertable-consider_water")), depth=g("watertable-water_depth"),
        lim=bool(d.get("limits-consider_limits")), inner=bool(d.get("limits-consider_internal_limits")),
        left=g("limits-left_x"), right=g("limits-right_x"), lright=g("limits-left_x_right"), rleft=g("limits-right_x_left"),
        analysis=d.get("options-analysis_choice", ""), by=d.get("options-slope_choice", ""),
        crit=g("options-critical_FOS"), show=g("options-max_display_FOS"),
        iters=whole(d.get("options-iterations")), slices=whole(d.get("options-slices")))


def rand_form(r, dyn=0.3, iters=500):
    """A form that is most often valid."""
    h = r.choice([1, 2, 3, 4, 5, 7.5, round(r.uniform(0.6, 9), 2), round(r.uniform(0.6, 9), 3)])
    L = round(h * r.choice([0.4, 0.6, 1, 1.5, 2, r.uniform(0.4, 2.5)]), 3)
    a = r.choice([25, 30, 35, 40, 45, 55, 60, 70, 80, round(r.uniform(22, 84), 1)])
    ds = sorted({round(h * x, 2) for x in [r.uniform(0.1, 1.5) for _ in range(r.choice([1, 1, 1, 2, 3, 4]))]})
    r.shuffle(ds)
    mats = [(r.choice([16, 17, 18.5, 19, 20, 22]), r.choice([15, 20, 25, 28, 30, 35, 38, round(r.uniform(12, 40), 1)]),
             r.choice([1, 2, 3, 5, 8, 12, round(r.uniform(0.5, 15), 2)]), d, r.choice(["", "clay", "sand", "fill"]), r.choice(COLS)) for d in ds]
    if r.random() < 0.12:
        mats.insert(r.randrange(len(mats) + 1), (20, 35, 2, 5, "", ""))       # an untouched row
        if len({float(m[3]) for m in mats}) < len(mats):
            mats = [m for m in mats if m[3] != 5] + [(20, 35, 2, 5, "", "")]
    q = lambda: r.choice([5, 10, 20, 40, 80, round(r.uniform(2, 70), 1)])
    off = lambda: r.choice([0, 0, 0.5, 1, 2, round(r.uniform(0, 1.2) * h, 2)])
    us = [(q(), off(), r.choice([0.5, 1, 2, h, round(r.uniform(0.1, 2) * h, 2)]), r.choice(COLS), r.random() < dyn) for _ in range(r.choice([0, 0, 1, 1, 2]))]
    ls = [(q(), off(), r.choice(COLS), r.random() < dyn) for _ in range(r.choice([0, 0, 1, 1, 2]))]
    if r.random() < 0.15:
        us.insert(r.randrange(len(us) + 1), (0, 0, 0, "red", False))
    if r.random() < 0.15:
        ls.insert(r.randrange(len(ls) + 1), (0, 0, "blue", False))
    by = r.choice(["length", "angle"])
    import math
    run = L if by == "length" else h / math.tan(math.radians(a))
    k = {}
    if r.random() < 0.3:
        k["water"] = r.choice([0, 0.5, 1, 2, round(h * r.uniform(0, 1.3), 2)])
    if r.random() < 0.35:
        # the crest is about 2.5 loads or 2 lengths from the left; these are guesses that are often in range
        tx = max(0.4 * (max(5 * run, 2.5 * h, 7.5) - run), 1)
        k["lim"] = (round(r.choice([0, r.uniform(0, 0.8) * tx]), 2), round(tx + run + r.uniform(0, 1.5) * h, 2))
        if r.random() < 0.5:
            k["inner"] = (round(tx * r.uniform(0.5, 1), 2), round(tx + run * r.uniform(0, 1.2), 2))
    elif r.random() < 0.2:
        k["inner"] = (1, 3)                # without the outer limits these do not count
    if any(u[4] for u in us) or any(u[3] for u in ls) or r.random() < 0.1:
        k["analysis"] = r.choice(["dynamic", "dynamic", "normal"])
    return post(h, a, L, mats, us, ls, by=by, crit=r.choice(["0.8", "1.2", "1.5", "2.0", f"{r.uniform(0.6, 3):.1f}"]),
                shown=f"{r.uniform(0.5, 5):.1f}", iters=r.choice([iters, iters, 2 * iters]), slices=r.choice([10, 10, 15, 25]), **k)


def large_form(r, i):
    """A form with many iterations, or with many rows."""
    if i % 2 == 0:
        return rand_form(r, dyn=0, iters=r.choice([1250, 1500, 2500])) | ({"options-iterations": "5000"} if i % 8 == 0 else {})
    h = r.choice([3, 5, 8])
    n, m = r.randint(11, 14), r.randint(10, 13)
    mats = [(r.choice([17, 18.5, 20]), r.choice([18, 25, 30]), r.choice([2, 5, 8]), round(h * (j + 1) / 8, 3), f"layer {j}", "") for j in range(n)]
    r.shuffle(mats)
    us = [(r.choice([2, 3, 5]), round(h * j / 10 + r.uniform(0, 0.05), 2), 0.2, r.choice(["red", ""]), j == m - 1) for j in range(m)]
    ls = [(r.choice([2, 3, 5]), round(h * j / 10 + r.uniform(0, 0.05), 2), r.choice(["blue", ""]), False) for j in range(m)]
    return post(h, 45, h, mats, us, ls, by=r.choice(["length", "angle"]), iters=500, slices=10)


def bad_form(r):
    """A form that is not valid, or only just."""
    d = rand_form(r)
    k = r.randrange(14)
    if k == 0:
        d[r.choice(["slope-height", "slope-length", "slope-angle"])] = r.choice(["", "x", "nan", "1,5"])
    elif k == 1:
        d["slope-height"] = r.choice(["0", "-1", "-0.5"])
    elif k == 2:
        d.update({"slope-angle": r.choice(["0", "91", "-5", "180"]), "options-slope_choice": "angle"})
    elif k == 3:
        d.update({"slope-length": r.choice(["-1", "-0.1"]), "options-slope_choice": "length"})
    elif k == 4:
        d[r.choice(["material-TOTAL_FORMS", "udl-INITIAL_FORMS", "lineload-TOTAL_FORMS"])] = r.choice(["", "x"])
    elif k == 5:
        d.pop(r.choice(sorted(d)))
    elif k == 6:
        d[f"material-0-{r.choice(['unit_weight', 'friction_angle', 'cohesion', 'depth_to_bottom'])}"] = r.choice(["", "x", "-1", "inf", "0", "1e400", "50"])
    elif k == 7:
        i = int(d["material-TOTAL_FORMS"])          # two strata to the same depth
        for f in ("unit_weight", "friction_angle", "cohesion", "depth_to_bottom", "name", "color"):
            d[f"material-{i}-{f}"] = d[f"material-0-{f}"]
        d["material-TOTAL_FORMS"] = str(i + 1)
    elif k == 8:
        d.update({"watertable-consider_water": "on", "watertable-water_depth": r.choice(["", "-1", "x"])})
    elif k == 9:
        d.update({"limits-consider_limits": "on", "limits-left_x": r.choice(["100", "-5", "x", ""]), "limits-right_x": r.choice(["0", "3", "1000"])})
    elif k == 10:
        d[r.choice(["options-iterations", "options-slices"])] = r.choice(["", "0", "5", "499", "51", "5001", "10.5", "x"])
    elif k == 11:
        d[r.choice(["options-critical_FOS", "options-max_display_FOS"])] = r.choice(["", "-1", "5.1", "x"])
    elif k == 12:
        d[r.choice(["options-analysis_choice", "options-slope_choice"])] = r.choice(["", "x", "Length"])
    else:
        n = int(d["udl-TOTAL_FORMS"])
        d.update({f"udl-{n}-magnitude": r.choice(["-5", "x", ""]), f"udl-{n}-offset": r.choice(["0", "-1", "x"]), f"udl-{n}-length": r.choice(["1", "-2", ""]),
                  f"udl-{n}-color": "red", "udl-TOTAL_FORMS": str(n + 1)})
    return d


def meanings(forms, out=None):
    """What the forms mean: the default page first."""
    o = os.path.join(scratch(), "meanings.ndjson")
    tlc_or_die("WebForms", "SPECIFICATION Spec\n", env={"FORMS": dump("forms.ndjson", [fields(d) for d in forms], True), "OUT": o})
    with open(o) as f:
        return [json.loads(l) for l in f]


def result(v):
    """The library on the calls of v: (world, calls for a figure of the result, planes found) - None if refused."""
    w, done = World(), []
    for e in v["calls"]:
        if w.call(e)[0] != "ok":
            return None
        done.append(e)
    s = w.s["A"]
    e = v["analysis"]
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        if e["op"] == "dynamic":
            p = D.Probes(s)
            try:
                s.analyse_dynamic(dec(e["crit"]))
            except Exception:
                p.stop()
                if w.call(analyse(5))[0] != "ok":
                    return None
            else:
                p.stop()
            # the loads on the way to where they are now
            far_u = [max([dec(q["udls"][i]) for q in p.list] + [u.offset]) for i, u in enumerate(s._udls)]
            far_l = [max([dec(q["lls"][i]) for q in p.list] + [u.offset]) for i, u in enumerate(s._lls)]
            for us, ls in ((far_u, far_l), ([u.offset for u in s._udls], [u.offset for u in s._lls])):
                done += [rmudls(all=True), rmlls(all=True)]
                if us:
                    done.append(udls(*[udl(u.magnitude, o, u.length, u.color, u.dynamic_offset) for u, o in zip(s._udls, us)]))
                if ls:
                    done.append(lls(*[ll(u.magnitude, o, u.color, u.dynamic_offset) for u, o in zip(s._lls, ls)]))
        elif w.call(e)[0] != "ok":
            return None
    return w, done, analysis.reported(s)


# ---------------------------------------------------------------- P24
def one24(a):
    """A submission (or the default page, d None) and the library on what it means."""
    d, v = a
    b = Browser()
    ans = b.ask(dict(k="get" if d is None else "post", i=1), [d])
    lib = attempt(lambda: result(v)) if v["verdict"] == "ok" else None
    key = "the default page" if d is None else json.dumps(d)
    if lib is None or not lib[2]:
        # P25 says what has to happen; here it must not look like a result
        return dict(form=key, empty=True, fail="a submission without a result is not shown as one" if ans["k"] == "page" else None)
    if ans["k"] != "page":
        return dict(form=key, empty=False, fail="a valid submission is answered with its result", got=ans)
    w, done, rep = lib
    pg = b.page
    planes = pg.planes()
    r = random.Random(key)
    pick = list(range(len(planes)))
    r.shuffle(pick)
    pick = [0] + pick[:24]
    same = lambda p: tuple(round(dec(p[k]), 5) for k in ("fos", "lx", "rx", "cx", "r"))
    fig = pg.figure()
    fig["legend"] = [pg.legend.get(f"{k / 10:.1f}", "?") for k in range(51)]
    again = b.ask(dict(k="get"), [d])
    return dict(form=key, empty=False, fail=None, v=v["analysis"]["op"],
                job=dict(kind="result", web=sorted(planes, key=same), lib=sorted(rep, key=same), order=[p["fos"] for p in planes],
                         shown=ans["planes"], stored=again.get("planes", ""),
                         all=planes,
                         paths=[dict(i=i + 1, pts=[[n(x), n(y)] for x, y in zip(pg.search[i].get("x", []), pg.search[i].get("y", []))]) for i in pick]),
                fig=dict(calls=done, kind="critical", maxplot=num(5), rep=planes, fig=fig, table="yes", legend="yes"))


def p24(out):
    r = Rnd(f"{SEED}/P24")
    forms = [large_form(r, i) for i in range(8 * Q)] + [rand_form(r) for _ in range(212 * Q)] + [bad_form(r) for _ in range(30 * Q)]
    ms = meanings(forms)
    res = pool(one24, [(None, ms[0])] + list(zip(forms, ms[1:])))
    jobs, figs, parts, of = [], [], [], []
    for x in res:
        if x["fail"]:
            out.violation(x["form"], x["fail"], x)
        if "job" in x:
            jobs.append(x["job"])
            figs.append(x["fig"])
            of.append(x)
            parts += figures.parts_of(x["fig"], len(figs), ["boundary", "critical"])
    if not jobs:
        raise CheckError("no submission had a result")
    t = tlc_or_die("WebTrace", "SPECIFICATION Spec\n", env={"JOBS": dump("webjobs.ndjson", jobs, True)})
    if t.distinct != 2 * len(jobs):
        raise CheckError("not every submission was judged")
    for l in t.lines("FAIL"):
        k, i, prop, clause = l.split("|")
        out.violation(of[int(k) - 1]["form"], clause, of[int(k) - 1]["form"])
    u = tlc_or_die("FigureTrace", "SPECIFICATION Spec\n", env={"JOBS": dump("figs.ndjson", figs, True), "PARTS": dump("figparts.ndjson", parts, True)})
    if u.distinct != 2 * len(parts):
        raise CheckError("not every figure was judged")
    for l in u.lines("FAIL"):
        k, prop, clause = l.split("|")
        out.violation(of[int(k) - 1]["form"], "the plot shows the model and the critical plane: " + clause, of[int(k) - 1]["form"])
    out.add(states=t.distinct + u.distinct, transitions=len(jobs) + len(parts), traces=len(jobs), forms=len(forms),
            without_result=sum(x["empty"] for x in res), planes_compared=sum(len(j["lib"]) for j in jobs),
            dynamic=sum(1 for x in of if x["v"] == "dynamic"),
            refused_by_specification=sum(m["verdict"] != "ok" for m in ms))
    out.sample(of[-1]["form"])
    out.sample(of[len(of) // 2]["form"])


# ---------------------------------------------------------------- P25
def submissions():
    """The submissions of the exhaustive exploration."""
    good = post(2, 45, 2, mats=((18, 30, 3, 5, "clay", "purple"),), lls=((10, 0.5, "blue", False),), shown="1.7")
    dyn = post(3, 60, 3, by="angle", mats=((19, 28, 6, 2, "", ""), (20, 33, 4, 6, "", "")), udls=((30, 0, 1, "red", True),), analysis="dynamic",
               crit="1.3", water=2, slices=15)
    bad = post(height="")
    impossible = post(mats=((20, 35, 2, 5, "", ""), (18, 30, 2, 5, "", "")))
    return [good, dyn, bad, impossible]


def alphabet(nforms, reports):
    for b in ("1", "2"):
        for k in ("get", "reset", "other", "follow", "forget"):
            yield dict(b=b, k=k, i=0, f="", good=False)
        for i in range(nforms):
            yield dict(b=b, k="post", i=i + 1, f="", good=False)
        for f in reports:
            yield dict(b=b, k="report", i=0, f=f, good=good(f))


def good(f):
    try:
        float(f)
        return True
    except ValueError:
        return False


def tour(edges, start):
    """Every edge (state, request, state) at least once, in pieces that start at the initial state."""
    from collections import deque, defaultdict
    nxt = defaultdict(list)
    for s, i, t in edges:
        nxt[s].append((i, t))

    def way(s, found):
        prev, todo = {s: None}, deque([s])
        while todo:
            x = todo.popleft()
            if found(x):
                p = []
                while prev[x]:
                    p.append(prev[x])
                    x = prev[x][0]
                return p[::-1]
            for i, t in nxt[x]:
                if t not in prev:
                    prev[t] = (x, i, t)
                    todo.append(t)
        return None
    left = {s: list(v) for s, v in nxt.items()}
    cur, walk = start, []
    while True:
        p = way(cur, lambda x: left.get(x))
        if p is None:
            break
        walk += p
        cur = p[-1][2] if p else cur
        i, t = left[cur].pop()
        walk.append((cur, i, t))
        cur = t
    pieces = []
    n_ = max(1, len(walk) // 64)
    for k in range(0, len(walk), n_):
        seg = walk[k:k + n_]
        pieces.append(way(start, lambda x: x == seg[0][0]) + seg)
    return pieces


def history(a):
    """Perform requests with real browsers; the references come from browsers that do nothing else."""
    forms, valid, reqs = a
    bs = {}
    steps, figs = [], []
    for q in reqs:
        b = bs.setdefault(q["b"], Browser())
        b.report = None
        ans = b.ask(q, forms)
        steps.append(dict(q=q, a=ans))
    used = sorted({q["i"] for q in reqs if q["k"] == "post"})
    asked = sorted({q["f"] for q in reqs if q["k"] == "report" and q["good"]})
    return steps, used, asked


def reference(a):
    """What form d (None: the default page) shows and reports on its own."""
    d, valid, asked = a
    if not valid:
        return dict(planes="", figure=""), {}, [], {}
    b = Browser()
    first = b.ask(dict(k="get" if d is None else "post", i=1), [d])
    if first["k"] != "page":
        return dict(planes="?", figure="?"), {f: "?" for f in asked}, [], {}
    rep, jobs = {}, []
    planes = b.page.planes()
    legend = [b.page.legend.get(f"{k / 10:.1f}", "?") for k in range(51)]
    for f in asked:
        ans = b.ask(dict(k="report", f=f), [d])
        rep[f] = ans.get("below", "?")
        if ans["k"] == "report":
            fig = json.loads(json.dumps(b.report))
            fig["legend"] = legend
            figures.witness(fig, planes)
            jobs.append(dict(calls=[], kind="all", maxplot=num(float(f)), rep=planes, fig=fig, table="yes", legend="yes", ask=f))
    d = d if d is not None else {}
    want = {k: v for k, v in d.items()} if d else first["fields"]
    for k in first["fields"]:                # boxes without a tick are not submitted
        if d and k.endswith(("dynamic_offset", "consider_water", "consider_limits", "consider_internal_limits")):
            want.setdefault(k, "")
    return dict(planes=first["planes"], figure=first["figure"]), rep, jobs, want


def valid24(v):
    if v["verdict"] != "ok":
        return False
    r = attempt(lambda: result(v))
    return bool(r and r[2])


def p25(out):
    # the protocol itself
    subs = submissions()
    ms = meanings(subs)
    valid = pool(valid24, ms[1:])
    if valid != [True, True, False, False]:
        raise CheckError(f"the submissions are not as intended: {valid} {[m['verdict'] for m in ms]}")
    reports = ["5", "1.2", "abc"]
    alph = list(alphabet(len(subs), reports))
    env = {"REQUESTS": dump("requests.json", alph), "VALID": dump("valid.json", valid)}
    inv = "".join(f"INVARIANT {i}\n" for i in ("P25_InvalidClears", "P25_NoLoop", "P25_PageStored")) + "PROPERTY P25_Isolation\nVIEW View\n"
    hist = "INVARIANT P25_LastValid\nINVARIANT P25_ReportsStored\n"
    h = tlc_or_die("Web", "SPECIFICATION Spec\nCONSTANTS\n Browsers = {\"1\"}\n MaxDepth = %d\n Ghosts = TRUE\n" % (5 if THOROUGH else 4) + inv + hist,
                   env={"VALID": env["VALID"], "REQUESTS": dump("requests1.json", [q for q in alph if q["b"] == "1"])})
    t = tlc_or_die("Web", "SPECIFICATION Spec\nCONSTANTS\n Browsers = {\"1\", \"2\"}\n MaxDepth = 1\n Ghosts = FALSE\nACTION_CONSTRAINT Edge\n" + inv, env=env, workers=1)
    edges = [(a, int(i) - 1, b) for a, i, b in (l.split("|") for l in t.lines("EDGE"))]
    edges = list(dict.fromkeys(edges))
    start = next(e[0] for e in edges if "10000" not in e[0] and "index" not in e[0] and "reset" not in e[0] and re.findall(r"\d+", re.sub(r'"[^"]*"', "", e[0].replace('"1"', ""))).count("0") >= 2)
    pieces = tour(edges, start)
    out.add(states=h.distinct + t.distinct, transitions=len(edges), spec_edges=len(edges), pieces=len(pieces))
    todo = [(subs, valid, [alph[i] for _, i, _ in p]) for p in pieces]
    # random histories
    r = Rnd(f"{SEED}/P25")
    n_, per = 40 * Q, 4
    forms = []
    for k in range(n_):
        forms += [bad_form(r) if r.random() < 0.3 else rand_form(r) for _ in range(per)]
    ms2 = meanings(forms)
    val2 = pool(valid24, ms2[1:])
    for k in range(n_):
        f, v = forms[k * per:(k + 1) * per], val2[k * per:(k + 1) * per]
        todo.append((f, v, random_requests(r, per)))
    done = pool(history, todo)
    # what each form shows on its own
    need = {}
    for (f, v, _), (steps, used, asked) in zip(todo, done):
        for i in range(len(f)):
            need.setdefault(json.dumps(f[i]), (f[i], v[i], set()))[2].update(asked)
        need.setdefault("default", (None, True, set()))[2].update(asked)
    refs = dict(zip(need, pool(reference, [(d, v, sorted(a)) for d, v, a in need.values()])))
    jobs = []
    for (f, v, _), (steps, used, asked) in zip(todo, done):
        rs = [refs[json.dumps(d)] for d in f] + [refs["default"]]
        jobs.append(dict(kind="history", valid=v, steps=steps, ref=[x[0] for x in rs], rep=[x[1] for x in rs], fields=[x[3] for x in rs]))
    w = tlc_or_die("WebTrace", "SPECIFICATION Spec\n", env={"JOBS": dump("webjobs.ndjson", jobs, True)})
    if w.distinct != 2 * len(jobs):
        raise CheckError("not every history was judged")
    for l in w.lines("FAIL"):
        k, i, prop, clause = l.split("|")
        st = jobs[int(k) - 1]["steps"][:int(i)]
        f = todo[int(k) - 1][0]
        out.violation(" ".join(brief(x["q"]) for x in st), clause, dict(requests=[x["q"] for x in st], forms=f, answer={a: b for a, b in st[-1]["a"].items() if a != "fields"}))
    figs, parts = [], []
    for k, x in refs.items():
        for j in x[2]:
            # every line is matched with its plane, the course of some is judged
            lines = j["fig"]["planes"]
            r.shuffle(lines)
            for t in lines[40:]:
                t["pts"] = []
            figs.append(dict(j, form=k, fig=dict(planes=lines, drawn=j["fig"]["drawn"], legend=j["fig"]["legend"])))
            parts += [dict(j=len(figs), kind="all", a=0, b=0), dict(j=len(figs), kind="planes", a=1, b=min(40, len(lines)))]
    u = tlc_or_die("FigureTrace", "SPECIFICATION Spec\n", env={"JOBS": dump("figs.ndjson", figs, True), "PARTS": dump("figparts.ndjson", parts, True)})
    if u.distinct != 2 * len(parts):
        raise CheckError("not every report was judged")
    for l in u.lines("FAIL"):
        k, prop, clause = l.split("|")
        j = figs[int(k) - 1]
        out.violation(f"report below {j['ask']} of {j['form']}", "the report shows the stored planes below the number requested: " + clause, j["form"])
    out.add(states=w.distinct + u.distinct, transitions=sum(len(j["steps"]) for j in jobs), traces=len(jobs), requests=sum(len(j["steps"]) for j in jobs),
            reports_judged=len(figs), random_histories=n_, random_forms=len(forms), valid_random_forms=sum(val2))
    out.sample("graph: " + " ".join(brief(x["q"]) for x in jobs[0]["steps"][:40]))
    out.sample("random: " + " ".join(brief(x["q"]) for x in jobs[-1]["steps"]))


def brief(q):
    return q["b"] + "." + {"post": f"submit({q['i']})", "report": f"report({q['f']})"}.get(q["k"], q["k"])


def random_requests(r, nforms):
    bs = ["1", "2", "3"]
    out = []
    pending = {}
    for _ in range(r.choice([12, 20, 30])):
        b = r.choice(bs)
        k = r.choice(["get", "get", "post", "post", "post", "post", "reset", "report", "report", "report", "other", "follow", "follow", "follow", "follow", "forget"])
        if k == "forget" and r.random() < 0.5:
            k = "get"
        f = r.choice(["5", "2", "1", "1.5", "0", "10", "-1", "inf", "abc", "1e1", "0.9"])
        out.append(dict(b=b, k=k, i=r.randrange(nforms) + 1 if k == "post" else 0, f=f if k == "report" else "", good=good(f) if k == "report" else False))
    # a browser follows only what it was sent to: left to the specification, which answers nothing otherwise
    return out
