"""Per property: alphabets for the exhaustive runs and seeded random histories."""
from common import SEED, THOROUGH, dec, arg
from gen import *

Q = 1 if not THOROUGH else 8          # factor on the number of random histories
D = 0 if not THOROUGH else 1          # extra depth of some exhaustive runs


# ---------------------------------------------------------------- random histories
class Walk:
    """Random calls on slopes A and B; remembers what was added so that removals hit."""

    def __init__(self, seed, weights, slopes="A", small=False):
        self.r = Rnd(seed)
        self.w = weights
        self.slopes = slopes
        self.items = {s: dict(u=[], l=[], m=[]) for s in "AB"}
        self.small = small

    def step(self):
        r = self.r
        s = r.choice(self.slopes)
        it = self.items[s]
        k = r.choices(list(self.w), list(self.w.values()))[0]
        if k == "new":
            return r.boundary(s, "new")
        if k == "boundary":
            return r.boundary(s)
        if k == "extents":
            return r.extents(s)
        if k == "materials":
            x = [r.mat() for _ in range(r.choice([1, 1, 2, 3]))]
            if it["m"] and r.random() < 0.1:
                x.append(r.choice(it["m"]))
            if r.random() < 0.05:
                x.insert(r.randrange(len(x) + 1), other(r.choice(["str", "int", "udl", "class", "none"])))
            it["m"] += [y for y in x if y["k"] == "mat"]
            return materials(*x, s=s)
        if k == "rmmaterial":
            z = r.random()
            if it["m"] and z < 0.4:
                return rmmaterial(m=r.choice(it["m"]), s=s)
            if it["m"] and z < 0.75:
                d = arg(r.choice(it["m"])["d"])
                if isinstance(d, (int, float)) and r.random() < 0.25:
                    d = r.choice([round(d, 1), round(d), d + 1e-9, d - 1e-9, d * (1 + 1e-6), d + 0.04, d - 0.04, -d])
                return rmmaterial(depth=d, s=s)
            if z < 0.9:
                return rmmaterial(depth=r.choice([0, 1, 77.7]), s=s)
            return rmmaterial(all=True, s=s)
        if k == "udls":
            x = [r.udl() for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
            if x and r.random() < 0.3:
                x.append(dict(r.choice(x)))
            if it["u"] and r.random() < 0.2:
                x.append(r.choice(it["u"]))
            it["u"] += x
            if r.random() < 0.05:
                x = x + [other(r.choice(["str", "int", "ll", "mat", "none"]))]
            return udls(*x, s=s)
        if k == "rmudls":
            z = r.random()
            if z < 0.12:
                return rmudls(all=True, s=s)
            x = [r.choice(it["u"]) for _ in range(r.choice([1, 1, 2])) if it["u"]]
            if r.random() < 0.3 and x:
                x[0] = almost(r, x[0], ["q", "off", "len"])
            return rmudls(*x, s=s)
        if k == "lls":
            x = [r.ll() for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
            if x and r.random() < 0.3:
                x.append(dict(r.choice(x)))
            if it["l"] and r.random() < 0.2:
                x.append(r.choice(it["l"]))
            it["l"] += x
            if r.random() < 0.05:
                x = x + [other(r.choice(["str", "int", "udl", "none"]))]
            return lls(*x, s=s)
        if k == "rmlls":
            if r.random() < 0.12:
                return rmlls(all=True, s=s)
            x = [r.choice(it["l"]) for _ in range(r.choice([1, 1, 2])) if it["l"]]
            if r.random() < 0.3 and x:
                x[0] = almost(r, x[0], ["q", "off"])
            return rmlls(*x, s=s)
        if k == "water":
            return r.water(s)
        if k == "rmwater":
            return rmwater(s)
        if k == "wopts":
            return r.wopts(s)
        if k == "options":
            return r.options(s)
        if k == "limits":
            return lambda w: r.limits_for(w, s)
        if k == "rmlimits":
            return rmlimits(s)
        if k == "plane":
            return lambda w: r.plane_for(w, s)
        if k == "entryexit":
            return lambda w: r.entryexit_for(w, s)
        if k == "rmplanes":
            return rmplanes(s)
        if k == "analyse":
            mf = r.choice([None, None, 2, 5, 1])
            # the automatic search is for slopes with few slices and iterations
            return lambda w: analyse(mf, s) if w.s[s]._individual_planes else None
        if k == "search":
            return [options(10, 500, tol=1e-9, maxit=100, s=s), analyse(r.choice([None, None, 3]), s)]
        if k == "surfacey":
            f = r.choice([0, 1, 0.5, 0.25, 0.45, 0.55, -0.1, 1.1, r.random(), r.random()])
            return lambda w: sy(f * w.s[s]._external_length, s)
        if k == "surfacex":
            f = r.choice([0, 1, 0.5, 0.75, 0.9, 0.8, 1.1, -0.1, -1e-9, r.random(), r.random()])
            return lambda w: sx(f * w.s[s]._external_height, s)
        if k == "corners":
            return simple("corners", s)
        if k == "mkmat":
            i = r.mat()
            for f in ("uw", "phi", "c", "d"):
                if r.random() < 0.15:
                    i[f] = num(r.choice([0, -1, 0.99, 1, 50, 50.01, 51, 1000, -0.5, r.bad(), r.bad()]))
            return mk(i)
        if k == "mkudl":
            i = r.udl()
            for f in ("q", "off", "len"):
                if r.random() < 0.15:
                    # an empty length is no length
                    i[f] = num(r.choice([None, 0, -1, -2.5, "x", (1,), "1"] if f == "len" else [0, -1, -2.5, 1e6, r.bad(), r.bad()]))
            i["col"] = r.choice(["red", "blue", "notacolour", "#123456", "#12", "pink", "12", ""])
            return mk(i)
        if k == "mkll":
            i = r.ll()
            for f in ("q", "off"):
                if r.random() < 0.15:
                    i[f] = num(r.choice([0, -1, -2.5, 1e6, r.bad(), r.bad()]))
            i["col"] = r.choice(["red", "blue", "notacolour", "#123456", "#12", "pink", "12", ""])
            return mk(i)
        if k == "critical":
            return simple("critical", s)
        if k == "allplanes":
            return allplanes(r.choice([None, 5, 2]), s)
        if k == "boundaryplot":
            return simple("boundaryplot", s)
        if k == "getters":
            return simple("getters", s)
        if k == "dynamic":
            return [options(10, 500, s=s), dynamic(r.uniform(0.8, 2.5), s)]
        raise KeyError(k)

    def events(self, n):
        out = []
        for _ in range(n):
            e = self.step()
            out += e if isinstance(e, list) else [e]
        return out


def almost(r, item, fields):
    """The load with one number changed, a little or more."""
    y = dict(item)
    f = r.choice(fields)
    v = arg(y[f])
    new = [1, 2, 0.5]
    if f == "len":
        new += [None, None, 0]
    if isinstance(v, (int, float)):
        new += [v + 1e-9, v * (1 - 1e-7), v + 0.01, v - 0.05, round(v, 1), round(v), -v]
    y[f] = num(r.choice(new))
    if r.random() < 0.15:
        y["dyn"] = not y["dyn"]
    if r.random() < 0.15:
        y["col"] = r.choice(["green", "pink"])
    return y


def walks(tag, n, length, weights, slopes="A", share=False, setup=()):
    out = []
    for i in range(n):
        w = Walk(f"{SEED}/{tag}/{i}", weights, slopes)
        out.append((list(setup) + w.events(length), share))
    return out


EDIT = dict(boundary=4, extents=3, materials=3, rmmaterial=2, udls=3, rmudls=2, lls=3, rmlls=2, water=2, rmwater=1,
            wopts=1, options=1, limits=1, rmlimits=1, plane=1, entryexit=1, rmplanes=1)


def only(d, **k):
    x = dict(d)
    x.update(k)
    return x


# ---------------------------------------------------------------- alphabets
M5, M2, M1 = mat(d=5), mat(uw=18, phi=30, c=3, d=2), mat(uw=17, phi=25, c=1, d=1)
U1, U2 = udl(10, 1, 2), udl(20, 0, None)
L1, L2 = ll(15, 1), ll(15, 2)


def p01():
    al = [boundary(2, 45), boundary(1, None, 6), boundary(5, 90), boundary(0.5, 30, 0), boundary(0, 45), extents(40, None),
          extents(None, 20), extents(5, 3), extents(-1, 5), udls(udl(10, 3, 4)), lls(ll(5, 8)), rmudls(all=True), materials(mat(d=9)),
          rmmaterial(all=True), simple("corners")]
    w = walks("P01", 300 * Q, 10, only(EDIT, boundary=8, extents=5, corners=6, surfacey=8, surfacex=8, new=2, options=0.2, plane=0.2))
    return [(al, 3 + D)], w


def p02():
    al = [boundary(3, 45), boundary(8, None, 4), boundary(1, None, 12), extents(None, 15), extents(50, None), extents(5, 3),
          materials(mat(d=2)), materials(mat(d=9), mat(uw=17, d=1)), rmmaterial(depth=9), udls(udl(10, 6, 4)), water(1.5), water(30),
          rmwater(), wopts(False, 0.5)]
    w = walks("P02", 250 * Q, 12, only(EDIT, materials=5, water=5, new=0.5))
    return [(al, 3 + D)], w


def p03():
    al = [boundary(3, 45), boundary(8, None, 4), boundary(1, None, 12), extents(50, None), extents(5, 3),
          udls(udl(10, 1, 2)), udls(udl(10, 0, None), udl(10, 6, 9)), rmudls(udl(10, 1, 2)), lls(ll(5, 0.5)), lls(ll(5, 11), ll(6, 3)),
          rmlls(ll(5, 11)), rmudls(all=True), materials(mat(d=12)), udls(udl(7, 2, 0.5), other())]
    w = walks("P03", 250 * Q, 12, only(EDIT, udls=6, lls=6, boundary=6, new=0.5))
    return [(al, 3 + D)], w


PL1 = plane(7.6, 7.7, 3.3)
BASE = [boundary(3, 45), materials(M2, M5), udls(U1), lls(L1), water(2), plane(9.1, 9.5, 4.3), plane(9.3, 9.9, 4.9),
        plane(9.6, 10.2, 5.5)]


def changes(s="A"):
    """One call of every kind that changes a model (or could), and some that do not."""
    r = [boundary(3, 60, s=s), boundary(3, 45, s=s), extents(30, None, s=s), extents(None, 12, s=s), materials(M1, s=s),
         rmmaterial(depth=2, s=s), rmmaterial(depth=77, s=s), rmmaterial(all=True, s=s), udls(U2, s=s), udls(udl(0, 1), s=s),
         rmudls(U1, s=s), rmudls(U2, s=s), rmudls(all=True, s=s), lls(L2, s=s), rmlls(L1, s=s), rmlls(all=True, s=s),
         water(1, s=s), water(None, s=s), rmwater(s=s), wopts(False, 0.3, s=s), wopts(True, s=s), options(slices=30, s=s),
         options(mind=1, s=s), options(tol=0.1, s=s), options(maxit=3, s=s), options(iters=600, s=s), limits(left=1, s=s),
         limits(right=13, s=s), rmlimits(s=s), plane(9.2, 9.6, 4.5, s=s), plane(1, 1, 0.1, s=s), entryexit(5, 10.5, 2, s=s), rmplanes(s=s)]
    return r


def refused(s="A"):
    return [boundary(-1, 45, s=s), boundary(3, 95, s=s), boundary(2, 0, s=s), boundary(2, None, -1, s=s), boundary(2, None, None, s=s),
            boundary("x", 45, s=s), boundary(3, "x", 2, s=s), extents(-1, None, s=s), extents(30, -1, s=s), extents("x", 8, s=s),
            extents(40, "x", s=s), extents(40, NAN, s=s), boundary(NAN, 45, s=s), boundary(3, NAN, s=s), boundary(3, None, NAN, s=s), water(NAN, s=s), wopts(False, NAN, s=s), limits(left=NAN, s=s), limits(left=1, right=NAN, s=s), materials(M1, other("int"), s=s), materials(M1, M2, s=s), materials(M1, M1, s=s),
            materials(mat(uw=18, d=30), M2, s=s), water(-1, s=s), water("x", s=s), wopts(False, "x", s=s),
            options(slices="x", s=s), options(slices=30, iters="x", s=s), options(slices=30, iters=900, mind="x", s=s),
            limits(left=-1, s=s), limits(left=1, right=0, s=s), limits(left=100, s=s), limits(lright=0, s=s), limits(lright="x", s=s),
            limits(left=2, rleft=1000, s=s), limits(left=2, lright=1, s=s), limits(left=1, right="x", s=s),
            entryexit(-1, 10, s=s), entryexit(5, 1000, s=s)]


def p04():
    al = changes() + [analyse(), simple("critical"), allplanes(5)]
    al2 = [analyse(), analyse(1), materials(M1), rmmaterial(depth=2), udls(U2), rmudls(U1), boundary(3, 60), water(1), rmwater(),
           options(slices=30), limits(left=1), plane(9.2, 9.6, 4.5), rmplanes(), wopts(False, 0.3), wopts(True), lls(L2), simple("critical")]
    w = walks("P04", 60 * Q, 14, only(EDIT, plane=6, analyse=8, critical=1), setup=BASE)
    w += walks("P04s", 12 * Q, 5, only(EDIT, plane=0, entryexit=0, search=5, critical=0.5), setup=[boundary(3, 45), materials(M2, M5)])
    # the same calls where nothing has its default value
    base2 = [boundary(3, 45), extents(40, 20), materials(M2, M5), udls(U1), lls(L1), water(2), wopts(False, 0.4), options(50, 2000, 0.5, 0.001, 30),
             limits(15, 18, 20, 30), plane(21.1, 22.5, 6.3), plane(21.3, 22.9, 6.9), analyse()]
    al3 = changes() + [options(slices=25), options(mind=0), options(tol=0.005), options(maxit=15), options(iters=1000), extents(0, 0), extents(None, 0),
                       extents(0, None), limits(0), limits(left=0, right=40), limits(right=40), boundary(3, None, 3), water(2), wopts(False, 0.4), rmudls(U1, U2)]
    # after the last change: analyse, rebuild the same model afresh in B, and compare
    w = [(x + [lambda w: rebuild(w, "A", "B"), analyse(s="A"), analyse(s="B")], sh) for x, sh in w]
    return [(al, 2, BASE + [analyse()]), (al2, 3 + D, BASE), (al3, 1 + D, base2)], w


def rebuild(w, a, b):
    """Events that build the observed model of slope a afresh in slope b."""
    s = w.s[a]
    import impl
    o = impl.observe_model(s)
    d = dec
    r = [boundary(d(o["h"]), None, d(o["L"]), s=b, op="new"), extents(d(o["minL"]), d(o["minH"]), s=b)]
    if o["mats"]:
        r.append(materials(*[mat(d(m["uw"]), d(m["phi"]), d(m["c"]), d(m["d"]), m["name"], m["ucol"]) for m in o["mats"]], s=b))
    if o["udls"]:
        r.append(udls(*[udl(d(u["q"]), d(u["off"]), d(u["len"][0]) if u["len"] else None, u["col"], u["dyn"]) for u in o["udls"]], s=b))
    if o["lls"]:
        r.append(lls(*[ll(d(u["q"]), d(u["off"]), u["col"], u["dyn"]) for u in o["lls"]], s=b))
    if o["water"]:
        r.append(water(d(o["water"][0]), s=b))
    r.append(wopts(False, d(o["wH"]), s=b))
    r.append(options(int(d(o["slices"])), int(d(o["iters"])), d(o["mind"]), d(o["tol"]), int(d(o["maxit"])), s=b))
    l = [d(x) for x in o["lim"]]
    r.append(limits(l[0], l[1], l[2], l[3], s=b))
    for p in o["planes"]:
        r.append(plane(d(p["cx"]), d(p["cy"]), d(p["r"]), s=b))
    return r


def p05():
    configs = []
    al = [udls(U2), rmudls(U2), lls(L2), rmlls(L2), water(1), water(2), materials(M1), rmmaterial(depth=1), wopts(False, 0.5), wopts(True),
          limits(left=1), rmlimits(), analyse(), options(slices=30), options(slices=25), options(tol=0.1)]
    if THOROUGH:
        configs.append((al, 4, BASE))
    configs.append((al, 3, BASE + [analyse()]))
    ws = []
    for i in range(60 * Q):
        r = Rnd(f"{SEED}/P05/{i}")
        ws.append((history(r, planes=True, search=False), r.random() < 0.3))
    for i in range(14 * Q):
        r = Rnd(f"{SEED}/P05s/{i}")
        ws.append((history(r, planes=False, search=True), r.random() < 0.3))
    for i in range(40 * Q):
        w = Walk(f"{SEED}/P05w/{i}", only(EDIT, plane=6, analyse=3, limits=0.5))
        loose = [options(tol=r.choice([0.02, 0.1, 0.3]))] if i % 3 == 0 else []
        ws.append((BASE + w.events(12) + loose + [analyse(), analyse(), lambda w: rebuild(w, "A", "B"), analyse(s="B")], False))
    return configs, ws


def history(r, planes, search):
    """The same final model by two ways: directly in B, with detours in A."""
    h = r.choice([2, 3, 4, 5.5])
    ang = r.choice([30, 45, 60, 75])
    ms = [mat(uw=r.choice([17, 18, 20]), phi=r.choice([20, 25, 30, 35]), c=r.choice([1, 2, 5]), d=d)
          for d in r.sample([0.5, 1, 1.7, 2.5, 3, 4, 6, 8], r.randint(1, 4))]
    us = [udl(r.choice([5, 10, 20]), r.choice([0, 0.5, 1]), r.choice([None, 1, 2])) for _ in range(r.randint(0, 2))]
    ls = [ll(r.choice([5, 10, 20]), r.choice([0, 0.5, 1, 2])) for _ in range(r.randint(0, 2))]
    wd = r.choice([None, 0.5, 1, 2, 4])
    ho = r.choice([None, 0.3, 1])
    opt = options(r.choice([10, 20]), 500, r.choice([0, 1]), *r.choice([(1e-9, 200), (1e-9, 200), (0.05, 15), (0.2, 6), (0.01, 2)]))
    final_b, final_a = [], []
    for s, out in (("A", final_a), ("B", final_b)):
        on = lambda e: dict(e, s=s)
        parts = [[materials(*ms, s=s)], [udls(*us, s=s)] if us else [], [lls(*ls, s=s)] if ls else [],
                 [water(wd, s=s)], [wopts(False, ho, s=s)] if ho is not None else [wopts(True, s=s)], [on(opt)]]
        if s == "B":
            out.append(boundary(h, ang, s="B", op="new"))
            for p in parts:
                out += p
        else:
            # detours: loads and strata added and removed, values set and changed, analyses in between
            out.append(boundary(r.choice([h, h * 0.6]), r.choice([ang, 50]), s="A", op="new"))
            if r.random() < 0.3:
                out += [boundary(h * 2.5, ang), materials(mat(d=1)), r.choice([rmmaterial(all=True), rmmaterial(depth=1)]), boundary(h, ang)]
            if r.random() < 0.6:
                out.append(extents(None, None))
            split = []
            for m in ms:
                split.append([materials(m)])
            for u in us:
                split.append([udls(u)])
            for l in ls:
                split.append([lls(l)])
            split += parts[3:]
            xu, xl, xm = udl(33, 0.7, 1.3), ll(44, 0.9), mat(uw=22, d=2.2)
            noise = [[udls(xu), rmudls(xu)], [udls(xu, xu), rmudls(xu)], [lls(xl), rmlls(xl)], [materials(xm), rmmaterial(m=xm)],
                     [materials(xm), rmmaterial(depth=2.2)], [boundary(h, 80)], [boundary(h * 0.5, None, 2)],
                     [limits(left=0.5), rmlimits()], [wopts(False, 0.9)], [water(0.2)], [options(slices=50, mind=0.7)],
                     [plane(7, 8, 4), rmplanes()], [udls(udl(0, 1))]]
            r.shuffle(split)
            seq = []
            for p in split:
                if r.random() < 0.6:
                    seq += r.choice(noise)
                if r.random() < 0.15:
                    seq.append(analyse() if planes else [analyse(), simple("getters")][r.random() < 0.5])
                seq += p
            seq += [boundary(h, ang)]
            # what detours may have overridden is set again at the end
            seq += parts[3] + parts[4] + parts[5]
            if planes:
                seq = [x for x in seq if x["op"] != "analyse"]
            elif not search:
                seq = [x for x in seq if x["op"] != "analyse"]
            else:
                seq = [options(10, 500)] + seq
            out += seq
    ev = final_a + final_b
    if planes:
        def pl(w):
            res = []
            for _ in range(6):
                p = r.plane_for(w, "B")
                if p:
                    res += [dict(p, s="A"), p]
            return res
        ev.append(pl)
    ev += [analyse(s="A"), analyse(s="B"), analyse(s="A"), analyse(2, s="A"), analyse(2, s="B")]
    # and a detour that is undone
    ev += [udls(udl(12, 0.2, 1)), lls(ll(3, 0.1)), analyse() if planes else simple("getters"), rmudls(udl(12, 0.2, 1)), rmlls(ll(3, 0.1)), analyse()]
    return ev


def p06():
    al = [udls(U1), udls(U1, U1, U2), udls(udl(10, 1, 2, "blue")), rmudls(U1), rmudls(udl(10, 1, None)), rmudls(udl(10, 1, 2.001)), rmudls(U1, U2), rmudls(all=True),
          lls(L1, L1), lls(L2), rmlls(L1), rmlls(ll(15, 1.01)), rmlls(ll(15.001, 1)), rmlls(all=True), simple("boundaryplot")]
    al2 = [materials(M5), materials(M2, M1), materials(mat(d=0), mat(d=8.97)), rmmaterial(m=M5), rmmaterial(depth=2), rmmaterial(depth=0),
           rmmaterial(depth=9), rmmaterial(depth=2.0001), rmmaterial(m=mat(uw=25, d=1)), rmmaterial(all=True), water(1), water(None), rmwater(), udls(udl(0, 1), ll(0, 1)),
           udls(U1), rmudls(U1), lls(ll(0, 2)), rmmaterial(m=M5, depth=2), rmmaterial(m=M1, all=True)]
    w = walks("P06", 200 * Q, 14, only(EDIT, udls=8, rmudls=8, lls=8, rmlls=8, materials=5, rmmaterial=5, boundary=1, extents=1, water=2,
                                       limits=0.3, options=0.3, plane=0.3, boundaryplot=0.2))
    # pairs of items that differ in one thing, of which one is removed
    us = [udl(10, 1), udl(10, 1, 3), udl(10, 1, 1), udl(10, 1, 10), udl(10, 1, 2.5), udl(10, 1, 2.4), udl(10, 1, 2.5000001), udl(10, 3), udl(10, 0), udl(10, 1.04),
          udl(10.4, 1), udl(3, 1), udl(1, 10), udl(1, 10, 10), udl(10, 1, None, "green"), udl(10, 1, 3, "green"), udl(10, 1, None, dyn=True), udl(10, 1, 1e-6), udl(10, 1e-9), udl(10, 10)]
    ls = [ll(10, 1), ll(10, 0), ll(10, 1.04), ll(10, 1e-9), ll(10.4, 1), ll(1, 10), ll(1, 1), ll(10, 10), ll(10, 1, "green"), ll(10, 1, dyn=True), ll(10, 2), ll(10, 0.99999999)]
    for put, take, xs in ((udls, rmudls, us), (lls, rmlls, ls)):
        for a in xs:
            w.append(([put(*[b for b in xs if b is not a], a), take(a), put(a), take(dict(a))], False))
            b = xs[(xs.index(a) + 7) % len(xs)]
            w.append(([put(a, b), take(b), put(b, b), take(a), take(b)], False))
    ds = [0, 1, 2, 10, 1.04, 2.4, 2.5, 2.0000001, 1e-9, 5, 12]
    for d in ds:
        for e in (rmmaterial(depth=d), rmmaterial(m=mat(uw=25, phi=1, c=9, d=d, name="x", col="red"))):
            w.append(([materials(*[mat(d=x, uw=15 + i) for i, x in enumerate(ds)]), e, materials(mat(d=d)), e], False))
    w += walks("P06b", 20 * Q, 8, only(EDIT, udls=8, rmudls=8, lls=8, rmlls=8, analyse=4, boundaryplot=2), setup=BASE)
    return [(al, 3 + D), (al2, 3)], w


def p07():
    al = refused()
    mix = refused() + [analyse(), boundary(3, 60), materials(M1), water(1), udls(U2), limits(left=1), options(slices=30)]
    bad = [mk(mat(uw=60)), mk(mat(uw="x")), mk(mat(phi=-1)), mk(udl("x")), mk(ll(5, "x")), mk(udl(5, 1, "x")), mk(mat(c=NAN)), mk(udl(5, NAN))]
    w = walks("P07", 120 * Q, 12, only(EDIT, plane=3, analyse=4, mkmat=1, mkudl=1), setup=BASE)
    # follow every step of a random history with all refusals
    for i in range(15 * Q):
        k = Walk(f"{SEED}/P07r/{i}", only(EDIT, plane=3, analyse=4))
        seq = list(BASE)
        for _ in range(5):
            e = k.step()
            seq += (e if isinstance(e, list) else [e]) + k.r.sample(refused(), 8)
        w.append((seq, False))
    return [(al + bad, 1, BASE + [analyse()]), (al + bad, 1), (mix, 2, BASE + [analyse()]), (al, 1, BASE + [limits(left=1, right=14), analyse(2)])] + \
        ([(mix, 3, BASE)] if THOROUGH else []), w


def p08():
    m = [mat(uw=20, d=5), mat(uw=18, d=1, col="pink"), mat(uw=19, d=3, col="notacolour"), mat(uw=17, d=8, col="#abc"),
         mat(uw=21, d=0), mat(uw=16, d=-5), mat(uw=22, d=2)]
    al = [materials(m[0]), materials(m[1], m[2]), materials(m[3]), materials(m[2]), materials(m[4]), materials(m[5]), materials(m[6], m[0]),
          materials(), rmmaterial(depth=5), rmmaterial(depth=1), rmmaterial(all=True), boundary(3, 45), materials(m[6], m[6]), materials(m[3], other("int"))]
    w = walks("P08", 250 * Q, 12, dict(materials=8, rmmaterial=3, boundary=1, extents=0.5, udls=0.3, new=0.2))
    for i in range(20 * Q):   # more strata than palette colours
        r = Rnd(f"{SEED}/P08/{i}")
        ds = r.sample([x / 4 for x in range(1, 60)], 14)
        seq = []
        while ds:
            k = r.randint(1, 4)
            seq.append(materials(*[mat(d=d, col=r.choice(["", "", "pink", "notacolour"])) for d in ds[:k]]))
            ds = ds[k:]
        w.append((seq, r.random() < 0.3))
    return [(al, 3 + D)], w


def p09():
    bs = []
    for h in (0, -1, 1, 0.001, "x", [], "1", NAN):
        for a in (45, None, 0, 90, 91, "x", NAN):
            for l in (None, 2, 0, -1, "x", NAN):
                bs.append(boundary(h, a, l))
    news = [dict(b, op="new") for b in bs]
    mats = [mat(uw, phi, c, d) for uw in (0.99, 1, 20, 50, 50.5, -1, 0, "x", NAN) for phi in (0, 35, -1, "x", NAN) for c in (2, -2, 0, "x", NAN) for d in (5, -5, 0, [], NAN)]
    us = [udl(q, o, l, c) for q in (10, -10, 0, "x", NAN) for o in (1, -1, 0, "x", NAN) for l in (None, 0, 2, -2, "x", 0.0, NAN) for c in ("red", "zz", "pink")]
    ls = [ll(q, o, c) for q in (10, -10, 0, "x", 1j, NAN) for o in (1, -1, 0, "x", NAN) for c in ("red", "zz", "pink")]
    ws = [water(x) for x in (0, 1, -1, -0.001, "x", [], None, 1000, NAN)]
    ex = [extents(a, b) for a in (None, 0, 30, -1, "x", NAN) for b in (None, 0, 20, -1, "x", NAN)]
    w = [([e], False) for e in bs + news + [mk(x) for x in mats + us + ls]]
    w += [(BASE[:5] + [e, boundary(2, 30)], False) for e in ws + ex]
    w += walks("P09", 120 * Q, 14, dict(mkmat=5, mkudl=5, mkll=4, new=5, boundary=5, extents=3, water=3))
    al = [boundary(2, 45), boundary(0, 45), dict(boundary(2, 91), op="new"), dict(boundary(2, 50), op="new"), extents(-1), extents(30), water(-1), water(2), mk(mat(uw=0.5)), mk(mat())]
    return [(al, 3)], w


def p10():
    al = [options(slices=30), options(slices=1), options(slices=900), options(iters=100), options(iters=10**6), options(iters=700),
          options(mind=1), options(mind=500), options(tol=0.01), options(maxit=50), options(50, 2000, 2, 0.001, 20), options(),
          wopts(True), wopts(False, 0.4), wopts(False, 3), wopts(False, -2), wopts(False, "x"), wopts(True, 0.2), boundary(2, 60), boundary(4, None, 2),
          extents(30, None), options(slices=0, iters=0), options(slices=-20, iters=-1), options(mind=-1), options(slices=11, iters=501),
          options(slices=499, iters=99999)]
    al2 = [wopts(True), wopts(False, 0.4), boundary(2, 60), boundary(4, None, 2), extents(30), extents(None, 20), udls(udl(5, 6, 4)), materials(mat(d=40)), options(mind=500), options(mind=1)]
    vals = dict(slices=[0, 1, 9, 10, 11, 25, 499, 500, 501, 10 ** 7, -1], iters=[0, 1, 499, 500, 501, 1000, 99999, 100000, 100001, -1], mind=[0, 0.1, 3, 9.01, 1e6, -1],
                tol=[0, 1e-12, 0.005, 0.1, 1], maxit=[0, 1, 2, 15, 16, 10 ** 6])
    w0 = []
    for b in ([], [options(50, 2000, 2, 0.001, 20)]):
        for f in vals:
            w0.append((b + [options(**{f: v}) for v in vals[f] + vals[f][::-2]], False))
            for g in vals:
                if f < g:
                    w0.append((b + [options(**{f: x, g: y}) for x in vals[f][::2] for y in vals[g][::3]], False))
        w0.append((b + [x for v in (0, 1, 0.5, 1e-12, 1.0000001, -1e-9, 7, -7) for x in (wopts(False, v), boundary(2, 60), wopts(True, v), boundary(3, 30))], False))
    w = w0 + walks("P10", 250 * Q, 12, only(EDIT, options=10, wopts=8, boundary=4, new=0.5))
    return [(al, 2 + D), (al2, 4 + D)], w


def p11():
    al = [limits(left=1), limits(left=3), limits(lright=3), limits(lright=100), limits(rleft=7), limits(rleft=1), limits(right=8), limits(right=1000),
          limits(1, 3, 7, 8), limits(left=4, lright=3), limits(rleft=9, right=8), limits(left=-1), limits(right=0), limits(lright="x"), limits(),
          rmlimits(), boundary(3, 45), boundary(1, None, 2), extents(30, None), udls(udl(5, 3, 6)), limits(left=0, right=9)]
    w = walks("P11", 250 * Q, 14, only(EDIT, limits=14, rmlimits=1, boundary=1.5, extents=1, new=0.3))
    return [(al, 3 + D)], w


def p15():
    al = [plane(9.1, 9.5, 4.3), plane(9.6, 10.2, 5.5), plane(1, 1, 0.1), entryexit(5, 10.5, 2), rmplanes(), analyse(), analyse(1.2), analyse(0),
          boundary(3, 60), boundary(3, 45), materials(M5), rmmaterial(all=True), udls(U2), plane(9.3, 9.9, 4.9)]
    w = walks("P15", 60 * Q, 14, only(EDIT, plane=8, entryexit=4, analyse=9), setup=BASE)
    return [(al, 3, [boundary(3, 45), materials(M2), options(slices=10, iters=500)])], w


def p20():
    al = [analyse(), analyse(1.5), simple("getters"), simple("critical"), allplanes(5), allplanes(None), simple("boundaryplot"), sy(4), sx(5), sy(-1)]
    al2 = [analyse(), simple("getters"), simple("critical"), simple("boundaryplot"), udls(U2), water(1), rmmaterial(depth=2), limits(left=1), boundary(3, 60)]
    w = walks("P20", 40 * Q, 10, dict(analyse=5, getters=3, critical=2, allplanes=1, boundaryplot=2, surfacey=2, surfacex=2, mkmat=0.5, mkudl=0.5,
                                      plane=1, udls=0.5, lls=0.5, boundary=0.5, materials=0.5, water=0.5), setup=BASE)
    w += walks("P20s", 4 * Q, 5, dict(search=4, getters=3, critical=2, boundaryplot=2, surfacey=2), setup=[boundary(3, 45), materials(M2, M5), lls(L1)])
    # thousands of planes
    w.append(([boundary(3, 45), materials(M2, M5), options(10, 5000), analyse(), allplanes(1.5), simple("getters"), simple("critical"), analyse(2),
               allplanes(None), analyse()], False))
    return [(al, 2 + D, BASE), (al2, 3, BASE)], w


def p21():
    al = [boundary(3, 60), boundary(5, 40, s="B"), materials(M1, M5), materials(M1, M2, s="B"), rmmaterial(depth=5), rmmaterial(depth=1, s="B"), udls(U1, U2),
          udls(U1, udl(30, 5, 6), s="B"), rmudls(U1), rmudls(all=True, s="B"), lls(L1), lls(L1, L2, s="B"), rmlls(all=True), extents(40, 20, s="B"),
          water(1, s="B")]
    two = [materials(M1, M5), materials(M1, M5, s="B"), udls(U1), udls(U1, s="B"), lls(L1, s="B"), lls(L1), plane(6.3, 6.9, 1.3),
           boundary(1, 30, s="A"), plane(6.3, 6.9, 1.3, s="A"), plane(6.3, 6.9, 1.3, s="B")]
    both = [analyse(), analyse(s="B"), boundary(3, 60), rmmaterial(depth=5), materials(mat(uw=18, d=2)), udls(udl(30, 2, 3)), rmudls(all=True), lls(L2), water(0.5),
            plane(6.2, 6.8, 1.2), rmplanes(), wopts(False, 0.1), limits(left=1), options(slices=40), extents(60)]
    w = walks("P21", 120 * Q, 14, only(EDIT, analyse=3, plane=3, new=0.3), slopes="AB", share=True)
    w += walks("P21d", 5 * Q, 6, only(EDIT, dynamic=6, plane=0, entryexit=0, search=2), slopes="AB", share=True,
               setup=[boundary(2, 50), boundary(2, 50, s="B"), materials(M5), materials(M5, s="B"), udls(udl(40, 0, 1, dyn=True)), udls(udl(40, 0, 1, dyn=True), s="B"),
                      lls(ll(20, 1, dyn=True)), lls(ll(20, 1, dyn=True), s="B")])
    return [(al, 3), (both, 2 + D, two + [analyse(), analyse(s="B")])], w


TABLE = {f.__name__.upper(): f for f in (p01, p02, p03, p04, p05, p06, p07, p08, p09, p10, p11, p15, p20, p21)}
SHARE = {"P21": (True,)}


def run(prop, out):
    import api
    configs, w = TABLE[prop]()
    return api.check(prop, out, configs, w, share=SHARE.get(prop, (False,)))
