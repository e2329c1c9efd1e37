"""Decides P26, P27 and P28: the page in a browser.

The pages the web application serves are loaded into Chromium (the one inside kaleido, which the application itself
draws documents with); page.js plays users on them - rows added, removed and filled in, choices, sliders, windows of
other sizes - and records what the page shows and would submit after every step. Page.tla says what that has to be,
PageTrace.tla judges; Page.tla alone is explored exhaustively and its behaviours are played as well.
"""
import glob, signal, subprocess, threading
from html.parser import HTMLParser
from common import *
from gen import *
import web
from impl import n

Q = 1 if not THOROUGH else 8
HERE = os.path.dirname(os.path.abspath(__file__))
KINDS = dict(Materials="material", Udls="udl", LineLoads="lineload")
PREFIX = {v: k for k, v in KINDS.items()}
SLIDER = "options-max_display_FOS"
OFF = "~"


class NoAnswer(CheckError):
    pass


class Chromium:
    """A browser; each call takes a piece of JSON to page.js and brings its answer."""

    def __init__(self):
        import kaleido
        exe = os.path.join(os.path.dirname(os.path.abspath(kaleido.__file__)), "executable", "kaleido")
        if not os.path.exists(exe):
            raise CheckError("no browser: " + exe)
        home = tempfile.mkdtemp(prefix="browser-", dir=scratch())
        js = os.path.join(home, "page.js")
        shutil.copy(os.path.join(HERE, "page.js"), js)
        self.p = subprocess.Popen([exe, "plotly", "--plotlyjs=file://" + js, "--disable-gpu", "--allow-file-access-from-files", "--disable-breakpad",
                                   "--disable-dev-shm-usage", "--no-sandbox"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  cwd=home, env=dict(os.environ, HOME=home, XDG_CONFIG_HOME=home, XDG_CACHE_HOME=home), start_new_session=True)
        t = threading.Timer(60, self.kill)
        t.start()
        first = self.p.stdout.readline()
        t.cancel()
        if not first:
            raise NoAnswer("the browser does not start")
        if json.loads(first).get("code"):
            raise CheckError("the browser does not start: " + repr(first[:300]))

    def call(self, job, timeout=300):
        t = threading.Timer(timeout, self.kill)
        t.start()
        try:
            req = dict(format="svg", width=100, height=100, scale=1, data=dict(data=[dict(job=job)], layout={}))
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        finally:
            t.cancel()
        if not line:
            raise NoAnswer("the browser gave no answer")
        a = json.loads(line)
        if a.get("code"):
            raise CheckError("the browser failed: " + str(a)[:500])
        r = json.loads(a["result"])
        if "err" in r:
            raise CheckError("page.js failed: " + r["err"])
        return r["ok"]

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            pass
        self.kill()

    def kill(self):
        """Ends it and all it started: a page that loops keeps its process, and with it the pipe, alive otherwise."""
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def scripts(html):
    """The site's own scripts of a page, by the address the page uses."""
    from django.contrib.staticfiles import finders
    from django.conf import settings
    out = {}
    for src in set(re.findall(r"<script\b[^>]*?\ssrc\s*=\s*[\"'](.*?)[\"']", html)):
        base = settings.STATIC_URL if settings.STATIC_URL.startswith("/") else "/" + settings.STATIC_URL
        if not src.startswith(base):
            continue
        f = finders.find(src[len(base):].split("?")[0])
        if f:
            with open(f, encoding="utf-8") as g:
                out[src] = g.read()
    return out


class Form(HTMLParser):
    """Names, types and values of the fields of a page as served."""

    def __init__(self, text):
        super().__init__()
        self.v, self.kind, self.choices, self._s = {}, {}, {}, None
        self.feed(text)

    def handle_starttag(self, tag, attrs):
        a = {}
        for k, v in attrs:
            a.setdefault(k, v if v is not None else "")
        if tag == "input" and a.get("name") and a.get("type") not in ("submit", "button") and a["name"] != "csrfmiddlewaretoken":
            t = a.get("type", "text")
            self.kind[a["name"]] = t
            self.v[a["name"]] = ("on" if "checked" in a else OFF) if t == "checkbox" else a.get("value", "")
        elif tag == "select" and a.get("name"):
            self._s = a["name"]
            self.kind[self._s], self.choices[self._s] = "select", []
        elif tag == "option" and self._s:
            self.choices[self._s].append(a.get("value", ""))
            if "selected" in a or self._s not in self.v:
                self.v[self._s] = a.get("value", "")

    def handle_endtag(self, tag):
        if tag == "select":
            self._s = None


def part(name):
    """(kind, row, field) of a name of a field in a row."""
    m = re.fullmatch(r"(material|udl|lineload)-(\d+)-(\w+)", name)
    return (PREFIX[m.group(1)], int(m.group(2)), m.group(3)) if m else None


class Served:
    """A page as served, for the browser and for the specification."""

    def __init__(self, html, form=None):
        self.html, self.form = html, form
        f = Form(html)
        self.kind, self.choices = f.kind, f.choices
        self.fields = {k: [] for k in KINDS}           # names of the fields of a row
        rows = {k: {} for k in KINDS}
        self.set = {}
        for name, v in f.v.items():
            p = part(name)
            if p:
                rows[p[0]].setdefault(p[1], {})[p[2]] = v
                if p[1] == 0:
                    self.fields[p[0]].append(p[2])
            elif not re.fullmatch(r"(material|udl|lineload)-TOTAL_FORMS", name):
                self.set[name] = slide(v) if f.kind[name] == "range" else v
        self.rows = {k: [[rows[k][i].get(x, OFF) for x in self.fields[k]] for i in sorted(rows[k])] for k in KINDS}
        b = web.Page(html).blocks
        self.search = json.loads(b["search"])
        self.plot = json.loads(json.loads(b["plot_json"]))
        self.colours = json.loads(b["COLOUR_FOS_DICT"])
        self.strata = [t for t in self.plot["data"] if t.get("fill") == "toself" and len(t.get("meta") or []) == 4]
        self.css = [t.get("fillcolor") or "" for t in self.strata] + list(self.colours.values())
        self.nb = len(self.plot["data"])
        self.lines, self.charts = {}, {}

    def row_type(self, kind, f):
        return self.kind[f"{KINDS[kind]}-0-{f}"]

    def line(self, t):
        key = (t["k"], t["h"], t["c"])
        return self.lines.setdefault(key, len(self.lines) + 1)

    def chart(self, c):
        key = tuple(t["b"] if t["b"] else self.nb + self.line(t) for t in c["t"]) if c["made"] else None
        return self.charts.setdefault(key, len(self.charts) + 1) if c["made"] else 0

    def spec(self, css):
        """The page for the specification; css: the colours as the browser writes them."""
        self.norm = dict(zip(self.css, css))
        k = sorted(self.colours.items(), key=lambda x: float(x[0]))
        lay = self.plot.get("layout", {})
        names = {c: self.norm[c] for c in self.colours.values()}
        ls, cs = [None] * len(self.lines), [None] * len(self.charts)
        for (p, h, c), i in self.lines.items():
            ls[i - 1] = dict(k=p, hover=n(h), colour=names.get(c, c))
        for c, i in self.charts.items():
            cs[i - 1] = list(c)
        return dict(rows=self.rows, set=self.set, fos=[n(p["FOS"]) for p in self.search], nb=self.nb,
                    notes=len(lay.get("annotations", [])) + len(lay.get("shapes", [])),
                    soils=[[str(t["meta"][3]), self.norm[t.get("fillcolor") or ""], canon(t["meta"][0]), canon(t["meta"][1]), canon(t["meta"][2])] for t in self.strata],
                    legend=[[n(float(a)), self.norm[c]] for a, c in k], ends=[canon(k[0][0]), canon(k[-1][0])],
                    lines=ls, charts=cs)


def canon(x):
    """Numbers as text, however written."""
    try:
        return repr(float(x))
    except (TypeError, ValueError):
        return "not a number: " + str(x)


def slide(x):
    """A value of a slider, written like a browser does."""
    try:
        return f"{float(x):.6g}"
    except (TypeError, ValueError):
        return x


class Table:
    def __init__(self):
        self.ix, self.items = {}, []

    def add(self, x):
        k = json.dumps(x, sort_keys=True)
        if k not in self.ix:
            self.items.append(x)
            self.ix[k] = len(self.items)
        return self.ix[k]


def posted(pg, o):
    """What the form would submit."""
    rows, total, extra, single = {k: {} for k in KINDS}, {k: "" for k in KINDS}, [], {}
    for name, v in o["post"]:
        p = part(name)
        m = re.fullmatch(r"(material|udl|lineload)-TOTAL_FORMS", name)
        if p:
            r = rows[p[0]].setdefault(p[1], {})
            if p[2] in r or p[2] not in pg.fields[p[0]]:
                extra.append(name)
            r[p[2]] = v
        elif m:
            if total[PREFIX[m.group(1)]]:
                extra.append(name)
            total[PREFIX[m.group(1)]] = v
        elif name in single or name not in pg.set:
            extra.append(name)
        else:
            single[name] = slide(v) if pg.kind[name] == "range" else v
    out = {}
    for k in KINDS:
        ix = sorted(rows[k])
        if ix != list(range(len(ix))):
            extra += [f"{KINDS[k]}-{i}" for i in ix if i >= len(ix)]
        out[k] = [[rows[k][i].get(f, OFF) for f in pg.fields[k]] for i in ix]
    for name in pg.set:
        single.setdefault(name, OFF)
    return dict(set=single, rows=out, total=total, shown=o["rows"], extra=extra)


def looked(pg, o):
    """What else the page shows."""
    pdf = slide(re.sub(r"^.*pdf/", "", o["pdf"]))
    hidden = sorted({x for x in o["hidden"] if not part(x)})
    soils = [[r[0], r[1]] + [canon(x) for x in r[2:]] for r in o["soils"]]
    nums = [canon(x) for x in o["ends"]]
    return dict(analyse=o["analyse"], pdf=pdf, dead=o["dead"], hidden=hidden, rowsHidden=sum(1 for x in o["hidden"] if part(x)),
                labels={k: slide(x) for k, x in o["labels"]}, menus=o["menus"], soils=soils, scale=o["scale"], busy=o["busy"],
                ends=[nums[0], nums[-1]] if nums else [], width=int(round(o["width"])), notes=o["notes"])


class Session:
    """Plays in browsers, and what the specification gets to judge."""

    def __init__(self):
        self.pages, self.plays = [], []

    def page(self, form=None):
        """Number of a page as served (to a submission); None if it is not a page."""
        html = serve(form)
        if html is None:
            return None
        self.pages.append(Served(html, form))
        return len(self.pages) - 1

    def altered(self, page, search):
        """The page as it would be served with other results."""
        html, k = re.subn(r'(<script id="search" type="application/json">).*?(</script>)', lambda m: m.group(1) + json.dumps(search) + m.group(2),
                          self.pages[page].html, flags=re.S)
        if k != 1:
            raise CheckError("no results in the page")
        self.pages.append(Served(html, dict(form=self.pages[page].form, altered=len(search))))
        return len(self.pages) - 1

    def play(self, page, ops, w=1400):
        self.plays.append((page, w, list(ops)))

    def run(self):
        """Performs all plays; writes the files of PageTrace."""
        files = {}
        for p in self.pages:
            files.update(scripts(p.html))
        chunks = [[] for _ in range(WORKERS)]
        order = sorted(range(len(self.plays)), key=lambda i: -len(self.plays[i][2]))
        load = [0] * WORKERS
        for i in order:
            w = load.index(min(load))
            chunks[w].append(i)
            load[w] += 6 + len(self.plays[i][2])
        todo = []
        for c in chunks:
            if c:
                used = sorted({self.plays[i][0] for i in c})
                todo.append((files, {str(u): self.pages[u].html for u in used},
                             [dict(page=str(self.plays[i][0]), width=self.plays[i][1], ops=[{a: b for a, b in e.items() if a != "fi"} for e in self.plays[i][2]],
                                   css=self.pages[self.plays[i][0]].css) for i in c]))
        import multiprocessing
        scratch()
        with multiprocessing.get_context("fork").Pool(len(todo)) as p:
            done = p.map(browse, todo, 1)
        seen = [None] * len(self.plays)
        for c, d in zip([c for c in chunks if c], done):
            for i, o in zip(c, d):
                seen[i] = o
        if "hangs" in seen:
            return None, seen, None, None
        posts, looks, plays, css = Table(), Table(), [], {}
        for (g, w, ops), obs in zip(self.plays, seen):
            pg, chart, steps = self.pages[g], 0, []
            css[g] = obs[0]["css"]
            pg.norm = dict(zip(pg.css, css[g]))
            for e, o in zip([dict(op="open")] + ops, obs):
                if o["chart"] is not None:
                    chart = pg.chart(o["chart"])
                p = posted(pg, o)
                e = {a: b for a, b in e.items() if a != "f"} | ({"f": e["fi"]} if "fi" in e else {"f": e["f"]} if "f" in e else {})
                e.pop("fi", None)
                steps.append(dict(e=e, post=posts.add(p), look=looks.add(looked(pg, o)), chart=chart, fail=o.get("fail", ""), submits=o["submits"], complete=o["complete"]))
            plays.append(dict(page=g + 1, w=w, steps=steps))
        for i, p in enumerate(self.pages):
            if i not in css:
                raise CheckError("a page is not used")
        return dict(PAGES=dump("pages.json", [p.spec(css[i]) for i, p in enumerate(self.pages)]), POSTS=dump("posts.ndjson", posts.items, True),
                    LOOKS=dump("looks.ndjson", looks.items, True), PLAYS=dump("plays.ndjson", plays, True)), plays, posts, looks

    def judge(self, prop, out):
        env, plays, posts, looks = self.run()
        if env is None:
            for (g, w, ops), o in zip(self.plays, plays):
                if o == "hangs":
                    out.violation(f"page {g} at {w}: " + "; ".join(tell(e) for e in ops), "the page answers its user",
                                  dict(form=self.pages[g].form, width=w, actions=ops, submitted=None, shown=None, chart=0, fail="no answer"))
            return
        r = tlc_or_die("PageTrace", "SPECIFICATION Spec\n", env=env)
        want = sum(len(p["steps"]) + 1 for p in plays)
        if r.distinct != want:
            raise CheckError(f"{r.distinct} of {want} steps were judged")
        out.add(states=r.distinct, transitions=sum(len(p["steps"]) for p in plays), traces=len(plays), pages=len(self.pages), judge_wall_s=round(r.wall, 1))
        for l in r.lines("FAIL"):
            k, i, p, clause = l.split("|", 3)
            if p == "MACHINERY":
                raise CheckError(clause)
            if p != prop:
                out.other[p] = out.other.get(p, 0) + 1
                continue
            st = plays[int(k) - 1]["steps"][:int(i)]
            g, w, ops = self.plays[int(k) - 1]
            out.violation(f"page {g} at {w}: " + "; ".join(tell(e) for e in ops[:int(i) - 1]), clause,
                          dict(form=self.pages[g].form, width=w, actions=ops[:int(i) - 1], submitted=posts.items[st[-1]["post"] - 1],
                               shown=looks.items[st[-1]["look"] - 1], chart=st[-1]["chart"], fail=st[-1]["fail"]))


def tell(e):
    return " ".join(str(v) for k, v in e.items() if k != "fi")


def serve(form=None):
    web.site()
    from django.test import Client
    c = Client(raise_request_exception=False)
    r = c.get("/") if form is None else c.post("/", form)
    return r.content.decode() if r.status_code == 200 else None


def opened(files, pages):
    for last in (False, False, True):
        b = None
        try:
            b = Chromium()
            b.call(dict(files=files, pages=pages, plays=[]), 60)
            return b
        except NoAnswer:
            if b:
                b.close()
            if last:
                raise


def browse(todo):
    """What every play showed; a play with which the browser stops answering is "hangs", those after it are left out."""
    files, pages, plays = todo
    out = []
    b = None
    try:
        for p in plays:
            for limit in (120, 200):        # plays take a second
                if b is None:
                    b = opened(files, pages)
                try:
                    out += b.call(dict(plays=[p]), limit)
                    break
                except NoAnswer:
                    b.close()
                    b = None
            else:
                return out + ["hangs"]
        return out
    finally:
        if b:
            b.close()


# ---------------------------------------------------------------- actions
def add(k):
    return dict(op="add", kind=k)


def delete(k, i):
    return {"op": "del", "kind": k, "i": i}


def put(f, v):
    return dict(op="set", f=f, v=v)


def drag(f, v):
    return dict(op="drag", f=f, v=v)


def drop(f):
    return dict(op="drop", f=f)


def size(w):
    return dict(op="size", w=w)


def click(at):
    """A click on something that is no control."""
    return dict(op="click", at=at)


def ask(what):
    """Press the button for an analysis, a report or a reset."""
    return dict(op="ask", what=what)


def row(pg, k, i, f, v):
    return dict(op="row", kind=k, i=i, f=f, v=v, fi=pg.fields[k].index(f) + 1)


INV = "".join(f"INVARIANT {i}\n" for i in ("P26_OneRowStays", "P26_NewRow", "P28_Unchanged", "P28_Settled")) + \
      "".join(f"PROPERTY {i}\n" for i in ("P26_Separate", "P26_KeepsOrder", "P28_StaysChanged", "P27_SliderOnly", "P28_Busy"))


def graph(ses, page, actions, maxrows, out, w=1400):
    """Plays every transition of Page.tla with these actions."""
    pg = ses.pages[page]
    acts = [({k: v for k, v in e.items() if k not in ("f", "fi")} | ({"f": e.get("fi", e.get("f"))} if "f" in e else {})) for e in actions]
    r = tlc_or_die("Page", f"SPECIFICATION Spec\nCONSTANT MaxRows = {maxrows}\nVIEW View\nACTION_CONSTRAINT Edge\n" + INV, workers=1,
                   env={"SERVED": dump("served.json", dict(rows=pg.rows, set=pg.set, w=w)), "ACTIONS": dump("actions.json", acts)})
    ids = {}
    # the first line leaves the state the page opens in
    edges = [(ids.setdefault(a, len(ids)), int(i) - 1, ids.setdefault(b, len(ids))) for a, i, b in (re.split(r"\|(\d+)\|", x, maxsplit=1) for x in r.lines("EDGE"))]
    if not edges:
        raise CheckError("nothing explored")
    edges = list(dict.fromkeys(edges))
    pieces = web.tour(edges, 0)
    for p in pieces:
        ses.play(page, [actions[i] for _, i, _ in p], w)
    out.add(states=r.distinct, spec_states=r.distinct, spec_transitions=len(edges))
    out.sample("graph: " + "; ".join(tell(actions[i]) for _, i, _ in pieces[0])[:400])


NUMBERS = ["1", "2", "3.5", "0", "12", "7.25", "-4", "100", "0.001", "33", "1e3", ""]
WORDS = ["", "clay", "red", "stiff <b>clay</b>", "#aabbcc", "ä", "material-0-name", "a-1-b", "udl-3-", "x y"]


def fresh(r, pg, t, name, now):
    """A value a user might give a field of type t."""
    if t == "checkbox":
        return OFF if now == "on" else "on"
    if t == "select":
        return r.choice(pg.choices[name])
    if t == "range":
        if name.endswith("FOS"):
            return r.choice(["2", "1.5", slide(r.randint(1, 50) / 10)])
        return str(r.choice([500, 750, 1000, 2500, 5000])) if name.endswith("iterations") else str(r.choice([10, 15, 25, 30, 50]))
    return r.choice(NUMBERS if t == "number" else WORDS)


def stroll(r, pg, n_, w, weights):
    """A random user: a list of actions."""
    count = {k: len(v) for k, v in pg.rows.items()}
    ops, wide = [], w
    free = [f for f in pg.set if pg.kind[f] != "hidden"]
    ticks = [f for f in free if pg.kind[f] in ("checkbox", "select")]
    sliders = [f for f in free if pg.kind[f] == "range"]
    while len(ops) < n_:
        o = r.choices(list(weights), list(weights.values()))[0]
        k = r.choice(sorted(KINDS))
        if o == "add":
            ops.append(add(k))
            count[k] += 1
        elif o == "grow":
            for _ in range(r.randint(3, 6)):
                ops.append(add(k))
                count[k] += 1
        elif o == "del":
            ops.append(delete(k, r.randint(1, count[k])))
            count[k] = max(1, count[k] - 1)
        elif o == "row":
            f = r.choice([x for x in pg.fields[k] if pg.row_type(k, x) != "hidden"])
            t = pg.row_type(k, f)
            v = r.choice(["on", OFF]) if t == "checkbox" else fresh(r, pg, t, f, None)
            ops.append(row(pg, k, r.choice([1, count[k], r.randint(1, count[k])]), f, v))
        elif o in ("set", "tick", "fos"):
            f = SLIDER if o == "fos" else r.choice(ticks) if o == "tick" else r.choice(free)
            t = pg.kind[f]
            v = r.choice(["on", OFF]) if t == "checkbox" else fresh(r, pg, t, f, None)
            ops.append(put(f, v))
        elif o == "drag":
            f = SLIDER if r.random() < 0.6 else r.choice(sliders)
            ops += [drag(f, fresh(r, pg, "range", f, None)) for _ in range(r.randint(1, 3))]
            if r.random() < 0.2:
                ops.append(size(r.choice([500, 1200])))
            ops.append(drop(f))
        elif o == "click":
            ops.append(click(r.choice(["cell", "head", "label", "tab", "chart", "page"])))
        elif o == "ask":
            ops.append(ask(r.choice(["analysis", "pdf", "reset"])))
        elif o == "size":
            wide = r.choice([360, 400, 640, 899, 900, 901, 1024, 1400, 1920, 899, 900])
            ops.append(size(wide))
    return ops


def pages(ses, r, n_, accept=lambda pg: True):
    """Pages of random valid submissions of a browser (it has at least one row of each kind)."""
    out = []
    tries = 0
    while len(out) < n_ and tries < 20 * n_:
        tries += 1
        d = web.rand_form(r)
        if any(int(d[f"{p}-TOTAL_FORMS"]) < 1 for p in KINDS.values()):
            for p, empty in (("udl", dict(magnitude=0, offset=0, length=0, color="red")), ("lineload", dict(magnitude=0, offset=0, color="blue"))):
                if int(d[f"{p}-TOTAL_FORMS"]) < 1:
                    d[f"{p}-TOTAL_FORMS"] = 1
                    d.update({f"{p}-0-{k}": v for k, v in empty.items()})
        i = ses.page(d)
        if i is None:
            continue
        if not accept(ses.pages[i]):
            ses.pages.pop()
            continue
        out.append(i)
    if len(out) < n_:
        raise CheckError("too few pages")
    return out


def some(ses, **k):
    i = ses.page(web.post(**k))
    if i is None:
        raise CheckError("no page")
    return i


TWO = dict(height=3, length=3, mats=((18, 30, 5, 2, "sand", ""), (20, 25, 8, 6, "clay", "red")),
           udls=((10, 0, 1, "red", False), (20, 1, 2, "green", True)), lls=((5, 0, "blue", False), (15, 1, "green", True)),
           lim=(2, 12), inner=(3, 11))


def p26(out):
    ses = Session()
    two = some(ses, **TWO)
    pg = ses.pages[two]
    edit = dict(Materials=("cohesion", "7"), Udls=("dynamic_offset", "on"), LineLoads=("magnitude", "7"))
    for k in KINDS:
        m = 4 if THOROUGH else 3
        graph(ses, two, [add(k)] + [delete(k, i) for i in range(1, m + 1)] + [row(pg, k, i, *edit[k]) for i in range(1, m + 1)], m, out)
    d = ses.page()
    pd = ses.pages[d]
    one = [row(pd, k, 1, *edit[k]) for k in KINDS]
    graph(ses, d, [x for k in KINDS for x in (add(k), delete(k, 1), delete(k, 2))] + one, 2, out)
    r = Rnd(f"{SEED}/P26")
    ps = [d, two] + pages(ses, r, 6 * Q)
    for i in range(60 * Q):
        g = ps[i % len(ps)]
        ses.play(g, stroll(r, ses.pages[g], 60, 1400, dict(add=4, grow=1, row=8, set=1, click=1, **{"del": 4})))
    ses.judge("P26", out)


def p27(out):
    ses = Session()
    few = some(ses, **TWO)
    pf = ses.pages[few]
    F = ["0.5", "1.5", "2", "5"]
    graph(ses, few, [put(SLIDER, x) for x in F] + [drag(SLIDER, "1"), drag(SLIDER, "3"), drop(SLIDER), size(600), size(1400)], 2, out)
    graph(ses, few, [put(SLIDER, "1"), put(SLIDER, "4"), size(899), size(900), row(pf, "Materials", 1, "cohesion", "7"), add("Materials"), delete("Materials", 1)], 3, out, w=600)
    r = Rnd(f"{SEED}/P27")
    ps = [ses.page()] + pages(ses, r, 14 * Q) + names(ses, r)
    ps += [ses.altered(few, edge_results(pf.search, x)) for x in EDGES]
    for i in range(48 * Q):
        g = ps[i % len(ps)]
        ses.play(g, stroll(r, ses.pages[g], 25, w := r.choice([1400, 600, 900, 899]), dict(fos=6, drag=2, size=4, row=1, add=0.5, set=0.5, click=0.5, ask=0.3, **{"del": 0.5})), w)
    ses.judge("P27", out)


# factors of safety at the edges of limits and colours; results as an analysis could report them
EDGES = [[0, 0.0004, 0.5, 0.5, 1, 1.05, 1.5, 2, 2, 2.0000001, 3, 4.95, 5], [0.1, 0.1, 0.2, 0.3, 0.7, 1.2, 1.9999, 2, 2.05, 2.1, 2.9999999, 3.000001, 4.9996],
         [2, 2, 2], [4.9, 5, 5.2, 7, 120], [0]]


def edge_results(search, fos):
    out = [dict(p) for p in search[:len(fos)]]
    while len(out) < len(fos):
        out.append(dict(search[len(out) % len(search)]))
    return [dict(p, FOS=f) for p, f in zip(out, fos)]


def names(ses, r):
    """Strata with names that are anything but plain words, not in the order of their depths."""
    return [some(ses, height=3, length=3, mats=((18, 30, 5, 6, "a < b & <i>c</i>", "red"), (20, 25, 8, 2, "\"quoted\"", ""), (17, 20, 3, 4, "1e3", "#00ff00")),
                 udls=((0, 0, 0, "red", False),), lls=((0, 0, "blue", False),))]


def p28(out):
    ses = Session()
    few = some(ses, **TWO)
    pg = ses.pages[few]
    ticks = [put(f, v) for f, vs in (("options-slope_choice", ("length", "angle")), ("watertable-consider_water", ("on", OFF)),
                                     ("limits-consider_limits", ("on", OFF)), ("limits-consider_internal_limits", ("on", OFF))) for v in vs]
    graph(ses, few, ticks + [put("slope-height", "4"), put(SLIDER, "1"), add("Udls")], 3, out)
    graph(ses, few, [ask(x) for x in ("analysis", "pdf", "reset")] + [put("slope-height", "4"), put(SLIDER, "1"), add("Udls"), delete("Udls", 1)] +
          [click(x) for x in ("cell", "head", "label", "tab", "chart", "page")], 3, out)
    it = "options-iterations"
    graph(ses, few, [put(SLIDER, "1"), put(SLIDER, "2"), drag(SLIDER, "3"), drop(SLIDER), put(it, "750"), drag(it, "1000"), drop(it), size(600),
                     add("Materials"), delete("Materials", 1), row(pg, "Materials", 1, "name", "x")], 3, out)
    r = Rnd(f"{SEED}/P28")
    ps = [ses.page(), few] + pages(ses, r, 8 * Q)
    for g in ps:
        for x in ("analysis", "pdf", "reset"):
            ses.play(g, [put(SLIDER, "1.5"), ask(x), put("slope-height", "4.5")])
            ses.play(g, [put("slope-height", "4.5"), ask(x)])
    # every single first change
    for g in ps[:2] if not THOROUGH else ps[:6]:
        pg = ses.pages[g]
        for f in pg.set:
            t = pg.kind[f]
            if t == "hidden":
                continue
            vs = pg.choices[f] if t == "select" else [fresh(r, pg, t, f, pg.set[f])] if t != "number" else ["3.25"]
            for v in vs:
                ses.play(g, [put(f, v), put(SLIDER, "1.1")])
                if t == "range":
                    ses.play(g, [drag(f, v), drop(f), put(SLIDER, "1.1")])
        for k in KINDS:
            for f in pg.fields[k]:
                t = pg.row_type(k, f)
                if t != "hidden":
                    v = "on" if t == "checkbox" else "3.25" if t == "number" else "grey"
                    ses.play(g, [row(pg, k, 1, f, v), put(SLIDER, "1.1")])
                    # in a row that was added: a page served with a change is new, so the change is the second one
                    ses.play(g, [add(k), row(pg, k, len(pg.rows[k]) + 1, f, v), put(SLIDER, "0.9")])
            ses.play(g, [add(k), put(SLIDER, "1.1")])
            ses.play(g, [delete(k, 1), put(SLIDER, "1.1")])
    for i in range(48 * Q):
        g = ps[i % len(ps)]
        ses.play(g, stroll(r, ses.pages[g], 14, 1400, dict(fos=3, drag=2, tick=4, set=3, row=2, add=0.3, size=0.5, click=1, ask=1, **{"del": 0.3})))
    ses.judge("P28", out)
