#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
API = "TLA+ state machine of the API (Slope.tla), every TLC transition replayed in the library; recorded histories judged by TLC against SlopeTrace.tla"
ANA = "TLA+ specification of search, slices and Bishop equation (Search.tla, Bishop.tla); recorded analyses judged by TLC (AnalysisTrace.tla)"
DYN = "TLA+ state machine of the dynamic analysis (Dynamic.tla), exhaustively checked by TLC with an arbitrary oracle; recorded runs judged against it"
FIG = "TLA+ specification of the figures as functions of the model (FigureTrace.tla); recorded figures judged by TLC"
WEB = "TLA+ state machine of browser sessions (Web.tla), every TLC transition replayed through Django; recorded responses judged by TLC"
PAG = "TLA+ state machine of the page (Page.tla), every TLC transition played in a browser; recorded plays judged by TLC (PageTrace.tla)"
NOTE_API = "Exhaustive for the listed small alphabets of calls up to the depth explored; beyond that seeded random histories with arbitrary doubles. Trusts the recording of attributes (harness/impl.py) and the double primitives (Real64.java)."
NOTE_ANA = "Every reported plane (or a seeded sample) of seeded random models is judged against values the specification computes from the calls alone; planes whose outcome rounding decides are skipped and counted. Trusts Real64.java and the recording."
T = {p: (API, NOTE_API) for p in "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P20 P21".split()}
T.update({p: (ANA, NOTE_ANA) for p in "P12 P13 P14 P16 P17 P18".split()})
T["P15"] = (API + "; " + ANA, NOTE_ANA)
T["P19"] = (DYN, "The protocol is exhaustive over all oracles on a small grid of values; recorded runs of seeded random models are judged probe by probe. Trusts the wrapper that observes the probes.")
T["P22"] = (FIG, "Figures of seeded random models and histories, read back from the plotly figure. Trusts the reader of the figure (harness/figures.py).")
T["P23"] = T["P29"] = T["P22"]
T["P30"] = ("TLA+ specification of the printed texts as functions of the model (ReportTrace.tla); recorded texts judged by TLC", "Seeded random histories and dynamic analyses. Trusts the reader of the numbers in a text (harness/report.py).")
T["P24"] = (WEB, "Seeded random valid forms posted through Django's test client; expected results come from the library, whose results P01-P19 decide.")
T["P25"] = (WEB, "Exhaustive for two browsers and a small alphabet of requests up to the depth explored, then seeded random request sequences.")
T.update({p: (PAG, "Exhaustive for small alphabets of user actions, then seeded random plays on seeded random pages, in the Chromium that kaleido brings along. Trusts page.js, which stands for plotly.js (its trace-changing calls) and reads the page.") for p in "P26 P27 P28".split()})
ids = [json.loads(l)["id"] for l in open(os.path.join(ROOT, "properties.jsonl"))]
sys.path.insert(0, os.path.join(ROOT, "harness"))
src = open(os.path.join(ROOT, "harness", "checks.py")).read()
done = sys.argv[1:] or [i for i in ids]
m = dict(version=1, setup_cmd="python3 tools/setup.py",
         checks=[dict(property=i, quick_cmd=f"python3 harness/run_check.py {i}",
                      thorough_cmd=f"env VERIF_TIER=thorough python3 harness/run_check.py {i}",
                      evidence_file=f"evidence/{i}.json", technique=T[i][0], level="model_checking", level_note=T[i][1])
                 for i in ids if i in done],
         not_applicable=[dict(property=i, reason="check under construction") for i in ids if i not in done],
         notes="No hooks in /repo: everything is observed through the library's objects and Django's test client.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
