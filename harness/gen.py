"""Events (calls) for alphabets and seeded random histories."""
import random
from common import num, enc, dec


def ev(op, s="A", **k):
    return dict(op=op, s=s, **k)


def boundary(h, angle=None, length=None, s="A", op="boundary", omit=()):
    e = ev(op, s, height=num(h), angle=num(angle), length=num(length))
    if omit:
        e["omit"] = list(omit)
    return e


def extents(minL=None, minH=None, s="A"):
    return ev("extents", s, minL=num(minL), minH=num(minH))


def mat(uw=20, phi=35, c=2, d=5, name="", col=""):
    return dict(k="mat", uw=num(uw), phi=num(phi), c=num(c), d=num(d), name=name, col=col)


def udl(q=10, off=0, length=None, col="red", dyn=False):
    return dict(k="udl", q=num(q), off=num(off), len=num(length), col=col, dyn=dyn)


def ll(q=10, off=0, col="blue", dyn=False):
    return dict(k="ll", q=num(q), off=num(off), col=col, dyn=dyn)


def other(b="str"):
    return dict(k="other", b=b)


def materials(*items, s="A"):
    return ev("materials", s, items=list(items))


def rmmaterial(m=None, depth=None, all=False, s="A"):
    return ev("rmmaterial", s, mat=[m] if m else [], depth=num(depth), all=all)


def udls(*items, s="A"):
    return ev("udls", s, items=list(items))


def rmudls(*items, all=False, s="A"):
    return ev("rmudls", s, items=list(items), all=all)


def lls(*items, s="A"):
    return ev("lls", s, items=list(items))


def rmlls(*items, all=False, s="A"):
    return ev("rmlls", s, items=list(items), all=all)


def water(d, s="A"):
    return ev("water", s, depth=num(d))


def rmwater(s="A"):
    return ev("rmwater", s)


def wopts(auto=True, H=1, s="A"):
    return ev("wopts", s, auto=auto, H=num(H))


def options(slices=None, iters=None, mind=None, tol=None, maxit=None, s="A"):
    return ev("options", s, slices=num(slices), iters=num(iters), mind=num(mind), tol=num(tol), maxit=num(maxit))


def limits(left=None, lright=None, rleft=None, right=None, s="A", omit=()):
    e = ev("limits", s, left=num(left), lright=num(lright), rleft=num(rleft), right=num(right))
    if omit:
        e["omit"] = list(omit)
    return e


def rmlimits(s="A"):
    return ev("rmlimits", s)


def plane(cx, cy, r, s="A"):
    return ev("plane", s, cx=enc(cx), cy=enc(cy), r=enc(r))


def entryexit(l, r, n=5, s="A"):
    return ev("entryexit", s, l=enc(l), r=enc(r), n=n)


def rmplanes(s="A"):
    return ev("rmplanes", s)


def analyse(maxfos=None, s="A"):
    return ev("analyse", s, maxfos=num(maxfos))


def dynamic(crit, s="A"):
    return ev("dynamic", s, crit=enc(crit))


def sy(x, s="A"):
    return ev("surfacey", s, x=enc(x))


def sx(y, s="A"):
    return ev("surfacex", s, y=enc(y))


def mk(item):
    return ev({"mat": "mkmat", "udl": "mkudl", "ll": "mkll"}[item["k"]], "A", item=item)


def allplanes(maxfos=5, s="A"):
    return ev("allplanes", s, maxfos=num(maxfos))


def simple(op, s="A"):
    return ev(op, s)


# ---------------------------------------------------------------- random values
NAN = float("nan")
BAD = ["x", [], (1,), "1", NAN]
COLS = ["", "red", "pink", "#123456", "#abc", "notacolour", "#12", "purple"]


class Rnd(random.Random):
    def len_(self, hi=30):
        return self.choice([1, 2, 3, 4, 5, 0.5, 1.5, 2.25, 7.3, 10, 12.75, round(self.uniform(0.1, hi), 2), self.uniform(0.05, hi),
                            10 ** self.uniform(-1.5, 1.7)])

    def height(self):
        return self.choice([1, 2, 3, 4, 5, 8, 10, 0.3, 0.75, 2.4, 6.5, round(self.uniform(0.2, 20), 2), self.uniform(0.2, 30), 10 ** self.uniform(-1, 2)])

    def angle(self):
        return self.choice([10, 15, 20, 30, 45, 60, 70, 80, 89, 90, 33.7, 0.5, 5, self.uniform(1, 90), round(self.uniform(5, 88), 1)])

    def bad(self):
        return self.choice(BAD)

    def maybe_bad(self, v, p=0.04, neg=0.04):
        x = self.random()
        if x < p:
            return self.bad()
        if x < p + neg:
            return -abs(v) if v else -1
        return v

    def boundary(self, s="A", op="boundary", bad=0.1):
        h = self.height()
        x = self.random()
        a = l = None
        if x < 0.45:
            a = self.angle()
        elif x < 0.8:
            l = self.choice([0, 0.0005, self.len_(), self.len_(), self.len_(), self.len_(60)])
        else:
            a, l = self.angle(), self.len_()
        if self.random() < bad:
            w = self.randrange(7)
            if w == 0:
                h = self.choice([0, -1, -0.5, self.bad()])
            elif w == 1:
                a = self.choice([0, -10, 90.5, 91, 180, self.bad()])
            elif w == 2:
                l = self.choice([-1, -0.001, self.bad()])
            elif w == 3:
                a = l = None
            elif w == 4:
                a, l = 0, 2
            elif w == 5:
                a, l = 95, 3
            else:
                h = 0.0
        return boundary(h, a, l, s, op)

    def extents(self, s="A", bad=0.12):
        v = lambda: self.choice([None, 0, 5, 8, 12, 20, 30, 50, 60, 100, self.len_(80), self.uniform(1, 120)])
        a, b = v(), v()
        if self.random() < bad:
            if self.random() < 0.5:
                a = self.choice([-1, -20.5, "x", (1,), NAN])
            else:
                b = self.choice([-1, -7, "x", (1,), NAN])
        return extents(a, b, s)

    def mat(self, depths=None):
        d = self.choice(depths) if depths else self.choice([0, 0.5, 1, 1.5, 2, 3, 4, 5, 6, 7.5, 9, 12, 20, 35, self.uniform(0, 15), round(self.uniform(0, 20), 1)])
        if self.random() < 0.05:
            d = -d
        return mat(self.choice([15, 17, 18, 19, 20, 21.5, 23, 1, 50, self.uniform(12, 25)]),
                   self.choice([0, 20, 25, 30, 33, 35, 38, 45, self.uniform(5, 45)]),
                   self.choice([0, 1, 2, 5, 8, 12, 20, -3, self.uniform(0, 30)]), d,
                   self.choice(["", "clay", "sand", "fill"]), self.choice(COLS))

    def udl(self, dyn=0.2):
        return udl(self.choice([1, 5, 10, 12.5, 20, 50, 100, 0.5, -10, 0, self.uniform(1, 80)]),
                   self.choice([0, 0, 0.5, 1, 2, 3, 5, -1, self.len_(12), self.uniform(0, 15), 20]),
                   self.choice([None, 0, 1, 2, 3, 0.4, 5, -2, self.len_(8), 15]), self.choice(COLS), self.random() < dyn)

    def ll(self, dyn=0.2):
        return ll(self.choice([1, 5, 10, 12.5, 20, 50, 100, -10, 0, self.uniform(1, 80)]),
                  self.choice([0, 0, 0.5, 1, 2, 3, 5, -1, self.len_(12), self.uniform(0, 25), 20]),
                  self.choice(COLS), self.random() < dyn)

    def water(self, s="A", bad=0.1):
        if self.random() < bad:
            return water(self.choice([-1, -0.01, "x", [], NAN]), s)
        return water(self.choice([None, 0, 0.5, 1, 2, 3, 4, 6, 10, 40, 200, self.uniform(0, 12)]), s)

    def wopts(self, s="A", bad=0.1):
        if self.random() < bad:
            return wopts(False, self.choice(["x", [], None, NAN]), s)
        return wopts(self.random() < 0.4, self.choice([0, 1, 0.5, 0.72, 2, -1, self.random()]), s)

    def options(self, s="A", bad=0.08):
        o = lambda vals: self.choice(vals) if self.random() < 0.45 else None
        k = dict(slices=o([10, 15, 25, 50, 5, 1, 500, 600, 0]), iters=o([500, 800, 1000, 100, 2000, 100001, 0, 4000]),
                 mind=o([0, 0.5, 1, 2, 5, 1000, 15, self.uniform(0, 20)]), tol=o([0.005, 0.001, 1e-6, 0.01, 0, 0.05, 0.3]),
                 maxit=o([5, 15, 50, 100]))
        if self.random() < bad:
            k[self.choice(["slices", "iters", "mind"])] = self.choice(["x", (1,)])
        return options(s=s, **k)

    def limits_for(self, w, s="A", bad=0.25):
        """Limits around the current geometry of the world w."""
        x = w.s[s]
        tx, ext, bx = x.get_top_coordinates()[0], x._external_length, x.get_bottom_coordinates()[0]
        f = self.uniform
        k = dict(left=self.choice([None, None, 0, tx * f(0, 0.9), tx * 0.5]),
                 lright=self.choice([None, None, tx, tx * f(0.5, 1), tx + 1, ext]),
                 rleft=self.choice([None, None, tx, bx, tx + (bx - tx) * f(0, 1), 0.5 * tx]),
                 right=self.choice([None, None, ext, bx, bx + (ext - bx) * f(0, 1), ext + 5]))
        if self.random() < bad:
            n = self.choice(list(k))
            k[n] = self.choice(["x", NAN, -1, 0, tx, bx, ext, tx * f(0, 2)])
        return limits(s=s, **k)

    def plane_for(self, w, s="A"):
        x = w.s[s]
        (tx, ty), (bx, by) = x.get_top_coordinates(), x.get_bottom_coordinates()
        ext = x._external_length
        L, h = bx - tx, ty - by
        # entry and exit, and a bulge
        l = tx * self.uniform(0.3, 1)
        r = bx + (ext - bx) * self.uniform(0, 0.6) if self.random() < 0.6 else tx + L * self.uniform(0.3, 1)
        ly, ry = ty, (by if r >= bx else ty - (r - tx) * h / L)
        mx, my, dx, dy = (l + r) / 2, (ly + ry) / 2, r - l, ly - ry
        k = self.uniform(0.15, 2)
        cx, cy = mx + dy * k, my + dx * k
        rad = ((cx - l) ** 2 + (cy - ly) ** 2) ** 0.5
        if self.random() < 0.1:
            rad = self.uniform(0.1, 3) * rad
        if self.random() < 0.3:
            cx, cy, rad = round(cx, 2), round(cy, 2), round(rad, 2)
        if cx <= 0 or cy <= 0:
            return None
        return plane(cx, cy, rad, s)

    def entryexit_for(self, w, s="A"):
        x = w.s[s]
        tx, ext, bx = x.get_top_coordinates()[0], x._external_length, x.get_bottom_coordinates()[0]
        l = tx * self.uniform(0.2, 0.99)
        r = self.choice([bx, bx + (ext - bx) * self.uniform(0.05, 1), tx + (bx - tx) * self.uniform(0.2, 0.95)])
        if self.random() < 0.06:
            l = -1
        if self.random() < 0.06:
            r = ext + 1
        return entryexit(l, r, self.choice([1, 2, 5]), s)
