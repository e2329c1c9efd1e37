"""Runs calls of the specification on the real library and records what can be observed."""
import contextlib, copy, io, json, os, sys
sys.dont_write_bytecode = True
os.environ["TQDM_DISABLE"] = "1"
from common import REPO, enc, dec, arg, num, CheckError
sys.path.insert(0, REPO)
import warnings
warnings.filterwarnings("ignore")
import pyslope
from pyslope import Slope, Material, Udl, LineLoad
if not os.path.abspath(pyslope.__file__).startswith(os.path.abspath(REPO) + os.sep):
    raise CheckError(f"imported {pyslope.__file__}, not the tree under {REPO}")


# ---------------------------------------------------------------- observation
NAN = float("nan")


def n(x):
    return enc(float(x))


def g(obj, attr):
    """A numeric attribute; NaN (never equal to anything expected) if it is not there or not a number."""
    try:
        return n(getattr(obj, attr))
    except (AttributeError, TypeError, ValueError):
        return enc(NAN)


def opt(x):
    return [] if x is None else [n(x)]


def observe_model(s):
    """Observable model of a slope as a record for SlopeTrace.tla."""
    have = []
    o = {}
    top, bot = s.get_top_coordinates(), s.get_bottom_coordinates()
    o["top"], o["bot"] = [n(top[0]), n(top[1])], [n(bot[0]), n(bot[1])]
    o["extL"], o["extH"] = n(s._external_length), n(s._external_height)
    o["mats"] = [dict(uw=n(m.unit_weight), phi=n(m.friction_angle), c=n(m.cohesion), d=n(m.depth_to_bottom),
                      rl=g(m, "RL"), name=m.name, col=str(m.color), ucol=str(getattr(m, "user_defined_color", "")))
                 for m in s._materials]
    o["udls"] = [dict(q=n(u.magnitude), off=n(u.offset), len=opt(u.length), left=g(u, "left"), right=g(u, "right"),
                      dyn=bool(u.dynamic_offset), col=str(u.color)) for u in s._udls]
    o["lls"] = [dict(q=n(u.magnitude), off=n(u.offset), x=g(u, "coord"), dyn=bool(u.dynamic_offset), col=str(u.color))
                for u in s._lls]
    o["wrl"] = opt(s._water_RL)

    def private(name, attr, f):
        try:
            v = getattr(s, attr)
            v = f(v)
        except (AttributeError, TypeError, ValueError):
            return
        o[name] = v
        have.append(name)
    private("h", "_height", n)
    private("L", "_length", n)
    private("minH", "_MIN_EXT_H", n)
    private("minL", "_MIN_EXT_L", n)
    private("wH", "_water_analysis_H", n)
    private("lim", "_limits", lambda v: [n(x) for x in v])
    private("slices", "_slices", n)
    private("iters", "_iterations", n)
    private("mind", "_min_failure_distance", n)
    private("tol", "_tolerance", n)
    private("maxit", "_max_iterations", n)
    private("planes", "_individual_planes", lambda v: [dict(cx=n(p["c_x"]), cy=n(p["c_y"]), r=n(p["radius"])) for p in v])
    if s._water_RL is None:
        o["water"] = []
        have.append("water")
    else:
        private("water", "_water_depth", opt)
    o["have"] = have
    return o


def attempt(f):
    try:
        return f()
    except Exception:
        return None


def plane(p):
    return dict(cx=n(p["c_x"]), cy=n(p["c_y"]), r=n(p["radius"]), lx=n(p["l_c"][0]), ly=n(p["l_c"][1]),
                rx=n(p["r_c"][0]), ry=n(p["r_c"][1]), fos=n(p["FOS"]))


def observe_results(s):
    try:
        search = list(s._search)
        fos = [float(p["FOS"]) for p in search]
    except (AttributeError, KeyError, TypeError):
        search, fos = [], []
    sums = []
    for k in ("c_x", "c_y", "radius"):
        sums.append(n(sum(p[k] for p in search)))
    for k, i in (("l_c", 0), ("l_c", 1), ("r_c", 0), ("r_c", 1)):
        sums.append(n(sum(p[k][i] for p in search)))
    fos, first = [n(x) for x in fos], [plane(search[0])] if search else []
    # asked last: an answer must not change what is stored
    mf = attempt(s.get_min_FOS)
    mc = attempt(s.get_min_FOS_circle)
    me = attempt(s.get_min_FOS_end_points)
    return dict(min=[] if mf is None else [n(mf)],
                circle=[] if mc is None else [n(x) for x in mc],
                ends=[] if me is None else [n(x) for pt in me for x in pt],
                fos=fos, first=first, sums=sums)


# ---------------------------------------------------------------- calls
class World:
    """Two slopes of the real library and the objects shared between them."""

    def __init__(self, share=False):
        self.s = {"A": Slope(), "B": Slope()}
        self.pool = {} if share else None

    def obj(self, item):
        if item["k"] == "other":
            return {"str": "not a load", "int": 7, "none": None, "udl": Udl(5), "ll": LineLoad(5),
                    "mat": Material(), "class": Material}[item.get("b", "str")]
        key = json.dumps(item, sort_keys=True)
        if self.pool is not None and key in self.pool:
            return self.pool[key]
        if item["k"] == "mat":
            x = Material(arg(item["uw"]), arg(item["phi"]), arg(item["c"]), arg(item["d"]), item["name"], item["col"])
        elif item["k"] == "udl":
            x = Udl(arg(item["q"]), arg(item["off"]), arg(item["len"]), item["col"], item["dyn"])
        else:
            x = LineLoad(arg(item["q"]), arg(item["off"]), item["col"], item["dyn"])
        if self.pool is not None:
            self.pool[key] = x
        return x

    def call(self, e):
        """Perform event e; returns (outcome, value for the specification)."""
        s, op = self.s[e["s"]], e["op"]
        val = 0
        kw = lambda **k: {a: arg(e[b]) for a, b in k.items() if a not in e.get("omit", ())}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                if op == "new":
                    self.s[e["s"]] = Slope(**kw(height="height", angle="angle", length="length"))
                elif op == "boundary":
                    s.set_external_boundary(**kw(height="height", angle="angle", length="length"))
                elif op == "extents":
                    s.update_boundary_options(**kw(MIN_EXT_L="minL", MIN_EXT_H="minH"))
                elif op == "materials":
                    s.set_materials(*[self.obj(i) for i in e["items"]])
                elif op == "rmmaterial":
                    s.remove_material(self.obj(e["mat"][0]) if e["mat"] else None, arg(e["depth"]), e["all"])
                elif op == "udls":
                    s.set_udls(*[self.obj(i) for i in e["items"]])
                elif op == "rmudls":
                    s.remove_udls(*[self.obj(i) for i in e["items"]], remove_all=e["all"])
                elif op == "lls":
                    s.set_lls(*[self.obj(i) for i in e["items"]])
                elif op == "rmlls":
                    s.remove_lls(*[self.obj(i) for i in e["items"]], remove_all=e["all"])
                elif op == "water":
                    s.set_water_table(arg(e["depth"]))
                elif op == "rmwater":
                    s.remove_water_table()
                elif op == "wopts":
                    s.update_water_analysis_options(**{"auto": e["auto"], **kw(H="H")})
                elif op == "options":
                    s.update_analysis_options(**kw(slices="slices", iterations="iters", min_failure_dist="mind",
                                                   tolerance="tol", max_iterations="maxit"))
                elif op == "limits":
                    s.set_analysis_limits(**kw(left_x="left", left_x_right="lright", right_x_left="rleft", right_x="right"))
                elif op == "rmlimits":
                    s.remove_analysis_limits()
                elif op == "plane":
                    s.add_single_circular_plane(dec(e["cx"]), dec(e["cy"]), dec(e["r"]))
                elif op == "entryexit":
                    s.add_single_entry_exit_plane(dec(e["l"]), dec(e["r"]), e["n"])
                elif op == "rmplanes":
                    s.remove_individual_planes()
                elif op == "analyse":
                    mf = arg(e["maxfos"])
                    s.analyse_slope() if mf is None else s.analyse_slope(max_fos=mf)
                elif op == "dynamic":
                    s.analyse_dynamic(dec(e["crit"]))
                elif op == "mkmat":
                    i = e["item"]
                    m = Material(arg(i["uw"]), arg(i["phi"]), arg(i["c"]), arg(i["d"]), i["name"], i["col"])
                    val = dict(uw=n(m.unit_weight), phi=n(m.friction_angle), c=n(m.cohesion), d=n(m.depth_to_bottom), name=m.name)
                elif op == "mkudl":
                    i = e["item"]
                    u = Udl(arg(i["q"]), arg(i["off"]), arg(i["len"]), i["col"], i["dyn"])
                    val = dict(q=n(u.magnitude), off=n(u.offset), len=opt(u.length), col=str(u.color), dyn=bool(u.dynamic_offset))
                elif op == "mkll":
                    i = e["item"]
                    u = LineLoad(arg(i["q"]), arg(i["off"]), i["col"], i["dyn"])
                    val = dict(q=n(u.magnitude), off=n(u.offset), col=str(u.color), dyn=bool(u.dynamic_offset))
                elif op == "surfacey":
                    val = opt(s.get_external_y_intersection(dec(e["x"])))
                elif op == "surfacex":
                    val = opt(s.get_external_x_intersection(dec(e["y"])))
                elif op == "corners":
                    (tx, ty), (bx, by) = s.get_top_coordinates(), s.get_bottom_coordinates()
                    val = [opt(s.get_external_y_intersection(x)) for x in (0, tx, bx, s._external_length)] + \
                        [opt(s.get_external_x_intersection(y)) for y in (ty, by)]
                elif op == "boundaryplot":
                    s.plot_boundary()
                elif op == "critical":
                    s.plot_critical()
                elif op == "allplanes":
                    s.plot_all_planes(max_fos=arg(e["maxfos"]))
                elif op == "getters":
                    for f in (s.get_min_FOS, s.get_min_FOS_circle, s.get_min_FOS_end_points, s.get_dynamic_results,
                              s.print_dynamic_results, s.get_top_coordinates, s.get_bottom_coordinates):
                        attempt(f)
                    repr(s)
                else:
                    raise CheckError("unknown operation " + op)
        except CheckError:
            raise
        except ValueError:
            return "ValueError", 0
        except Exception as x:
            return type(x).__name__, 0
        return "ok", val


# ---------------------------------------------------------------- recording
class Recorder:
    """A forest of calls and observations in the form SlopeTrace.tla reads."""

    def __init__(self):
        self.nodes, self.roots = [], []
        self.mobs, self.robs, self._m, self._r = [], [], {}, {}
        self.kids = []      # node -> {event key: node}
        self.root = {}
        self.paths = 0

    def _intern(self, tab, idx, o):
        k = json.dumps(o, sort_keys=True, separators=(",", ":"))
        i = idx.get(k)
        if i is None:
            tab.append(o)
            i = idx[k] = len(tab)
        return i

    def _obs(self, w):
        a, b = w.s["A"], w.s["B"]
        return dict(oa=self._intern(self.mobs, self._m, observe_model(a)),
                    ob=self._intern(self.mobs, self._m, observe_model(b)),
                    ra=self._intern(self.robs, self._r, observe_results(a)),
                    rb=self._intern(self.robs, self._r, observe_results(b)))

    def _add(self, node):
        self.nodes.append(node)
        self.kids.append({})
        return len(self.nodes)

    def run(self, events, share=False, prepare=None):
        """Execute events from two default slopes; shared beginnings are recorded once."""
        w = World(share)
        self.paths += 1
        rk = bool(share)
        cur = self.root.get(rk)
        if cur is None:
            cur = self.root[rk] = self._add(dict(par=0, out="ok", val=0, e={"op": "init", "s": "A"}, share=share, **self._obs(w)))
            self.roots.append(cur)
        todo = list(events)[::-1]
        while todo:
            e = todo.pop()
            if callable(e):          # events that depend on the state reached
                e = e(w) or []
                todo += [e] if isinstance(e, dict) else list(e)[::-1]
                continue
            k = json.dumps(e, sort_keys=True)
            out, val = w.call(e)
            nxt = self.kids[cur - 1].get(k)
            if nxt is None:
                nxt = self._add(dict(par=cur, out=out, val=val, e=e, share=share, **self._obs(w)))
                self.kids[cur - 1][k] = nxt
            cur = nxt
        return w

    def path(self, i):
        ev = []
        while i:
            x = self.nodes[i - 1]
            if x["par"]:
                ev.append(x["e"])
            i = x["par"]
        return ev[::-1]

    def write(self, tag="t"):
        from common import dump
        out = []
        for i, x in enumerate(self.nodes):
            y = {k: v for k, v in x.items() if k not in ("par", "share")}
            y["kids"] = sorted(self.kids[i].values())
            out.append(y)
        return {"NODES": dump(tag + "nodes.ndjson", out, True), "MOBS": dump(tag + "mobs.ndjson", self.mobs, True),
                "ROBS": dump(tag + "robs.ndjson", self.robs, True), "ROOTS": dump(tag + "roots.json", self.roots)}


def show(e):
    """An event in readable form."""
    def v(x):
        if isinstance(x, dict):
            if "k" in x and x["k"] in ("none", "n", "bad"):
                return repr(arg(x)) if x["k"] != "bad" else x.get("b")
            return {k: v(y) for k, y in x.items()}
        if isinstance(x, list):
            if len(x) == 2 and all(isinstance(y, int) for y in x):
                return dec(x)
            return [v(y) for y in x]
        return x
    return e["s"] + "." + e["op"] + "(" + ", ".join(f"{k}={v(x)}" for k, x in e.items() if k not in ("op", "s")) + ")"
