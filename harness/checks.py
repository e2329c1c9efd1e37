"""Which machinery decides which property."""
import apiprops

CHECKS = {}


def add(*props):
    def deco(f):
        for p in props:
            CHECKS.setdefault(p, []).append(f)
        return f
    return deco


import analysis
for p in ("P12", "P13", "P14", "P15", "P16", "P17", "P18"):
    add(p)(getattr(analysis, p.lower()))
import dynamic
add("P19")(dynamic.p19)
import figures
add("P22")(figures.p22)
add("P23")(figures.p23)
add("P29")(figures.p29)
import report
add("P30")(report.p30)
import web
add("P24")(web.p24)
add("P25")(web.p25)
import page
for p in ("P26", "P27", "P28"):
    add(p)(getattr(page, p.lower()))
for p in apiprops.TABLE:
    add(p)(lambda out, p=p: apiprops.run(p, out))

CHECKS = {p: (lambda out, fs=fs: [f(out) for f in fs]) for p, fs in CHECKS.items()}
