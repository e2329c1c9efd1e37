"""Plumbing shared by all checks: numbers, TLC runs, evidence, findings."""
import glob, json, os, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
REPO = os.environ.get("VERIF_REPO", "/repo")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(VERIF, "evidence"))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
JARS = ["/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar"]
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


class CheckError(Exception):
    """The check itself cannot give an answer."""


# ---------------------------------------------------------------- numbers
def enc(x):
    """A number as the pair of signed 32-bit halves of its double."""
    b = struct.pack(">d", float(x) + 0.0)
    return list(struct.unpack(">ii", b))


def dec(p):
    return struct.unpack(">d", struct.pack(">ii", p[0], p[1]))[0]


def num(x):
    """An argument of a call for the specification (see Core.tla)."""
    if x is None:
        return {"k": "none"}
    if isinstance(x, float) and x != x:
        return {"k": "bad", "b": "nan"}
    if isinstance(x, (int, float)) and not isinstance(x, bool):
        return {"k": "n", "v": enc(x), "t": "i" if isinstance(x, int) else "f"}
    return {"k": "bad", "b": repr(x)}


BAD = {"'x'": "x", "[]": [], "{}": {}, "(1,)": (1,), "[1]": [1], "'1'": "1", "''": "", "1j": 1j, "nan": float("nan")}


def arg(a):
    """Back from an argument record to the Python value."""
    if a["k"] == "none":
        return None
    if a["k"] == "n":
        v = dec(a["v"])
        return int(v) if a.get("t") == "i" else v
    return BAD[a["b"]]


# ---------------------------------------------------------------- TLC
_tmp = None


def scratch():
    """One scratch directory per run, removed at exit."""
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="verif-")
        import atexit
        atexit.register(lambda: shutil.rmtree(_tmp, ignore_errors=True))
    return _tmp


def classes():
    """Compile the double primitives (spec/Real64.java) into the scratch directory."""
    d = os.path.join(scratch(), "classes")
    if not os.path.isdir(d):
        os.makedirs(d)
        p = subprocess.run(["javac", "-cp", ":".join(JARS), "-d", d] + glob.glob(os.path.join(SPEC, "*.java")),
                           capture_output=True, text=True)
        if p.returncode:
            raise CheckError("javac failed: " + p.stdout + p.stderr)
    return d


class TLCRun:
    def __init__(self, out, rc, wall):
        self.out, self.rc, self.wall = out, rc, wall
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.ok = "Model checking completed. No error has been found." in out
        self.violated = re.findall(r"(?:Invariant|Action property|Temporal properties?) (\S+) (?:is|are|was) violated|property (\S+) is violated", out)

    def lines(self, tag):
        for l in self.out.splitlines():
            l = l.strip().strip('"').replace('\\"', '"')
            if l.startswith(tag + "|"):
                yield l[len(tag) + 1:]


def tlc(module, cfg, env=None, workers=None, timeout=800, heap="6g", extra=()):
    """Run TLC on spec/<module>.tla with the configuration text cfg."""
    d = tempfile.mkdtemp(prefix=module + "-", dir=scratch())
    cfgf = os.path.join(d, module + ".cfg")
    with open(cfgf, "w") as f:
        f.write(cfg)
    cp = ":".join([classes()] + JARS)
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-DTLA-Library=" + SPEC,
           "-cp", cp, "tlc2.TLC", "-workers", str(workers or WORKERS), "-deadlock",
           "-metadir", os.path.join(d, "meta"), "-noGenerateSpecTE", "-config", cfgf] + list(extra) + \
          [os.path.join(SPEC, module + ".tla")]
    t = time.time()
    e = dict(os.environ)
    e.update(env or {})
    outf = os.path.join(d, "out")
    with open(outf, "w") as f:
        try:
            rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, cwd=d, env=e, timeout=timeout).returncode
        except subprocess.TimeoutExpired:
            raise CheckError(f"TLC on {module} took more than {timeout} s")
    with open(outf, errors="replace") as f:
        out = f.read()
    r = TLCRun(out, rc, time.time() - t)
    shutil.rmtree(d, ignore_errors=True)
    return r


def tlc_or_die(*a, **k):
    r = tlc(*a, **k)
    if not r.ok:
        lines = [l[:300] for l in r.out.splitlines() if not re.match(r'"?(EDGE|FAIL|RUN|COUNT|Parsing|Semantic)', l)]
        first = next((i for i, l in enumerate(lines) if l.startswith("Error")), 0)
        tail = "\n".join(lines[first:first + 12] + ["..."] + lines[-25:])
        raise CheckError(f"TLC did not complete ({a[0]}):\n{tail}")
    return r


def dump(name, obj, lines=False):
    p = os.path.join(scratch(), name)
    with open(p, "w") as f:
        if lines:
            for o in obj:
                f.write(json.dumps(o, separators=(",", ":")) + "\n")
        else:
            json.dump(obj, f, separators=(",", ":"))
    return p


def pool(f, items):
    """[f(i) for i in items], shared by all cores (f is a function of a module)."""
    import multiprocessing
    items = list(items)
    scratch(), classes()
    with multiprocessing.get_context("fork").Pool(WORKERS) as p:
        return p.map(f, items, max(1, len(items) // (WORKERS * 8)))


# ---------------------------------------------------------------- outcome of a check
class Outcome:
    """Collects what a check explored and what failed, and writes the evidence."""

    def __init__(self, prop, level="model_checking"):
        self.prop, self.level, self.t0 = prop, level, time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.viol = []        # (key, description, replay object)
        self.other = {}       # failures of other properties seen on the way (not judged here)

    def add(self, states=0, transitions=0, traces=0, **kw):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool) and k in self.cov:
                self.cov[k] += v
            else:
                self.cov[k] = v

    def sample(self, s, n=8):
        if len(self.cov["samples"]) < n:
            self.cov["samples"].append(s)

    def violation(self, key, text, replay=None):
        self.viol.append((key, text, replay))

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        known = known_findings()
        new, old = [], []
        for key, text, replay in self.viol:
            k = next((f for f in known if f["property"] == self.prop and re.fullmatch(f["match"], key + " :: " + text, re.S)), None)
            (old if k else new).append((key, text, replay, k))
        ev = {"property": self.prop, "tier": TIER, "seed": SEED, "level": self.level,
              "coverage": self.cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        if self.other:
            ev["coverage"]["failures_of_other_properties"] = self.other
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        for k in {o[3]["id"]: o[3] for o in old}.values():
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}")
        if new:
            rdir = os.path.join(EVID, "replay")
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, self.prop + ".json")
            with open(path, "w") as f:
                json.dump([{"key": k, "what": t, "replay": r} for k, t, r, _ in new[:50]], f, indent=1, default=str)
            seen = set()
            for k, t, r, _ in new:
                if t not in seen and len(seen) < 10:
                    seen.add(t)
                    print(f"  {self.prop}: {t}  [{str(k)[:400]}]")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        c = self.cov
        print(f"{self.prop} ok: {c['states']} states, {c['transitions']} transitions, "
              f"{c['traces_validated_against_impl']} traces validated, {ev['wall_s']} s")
        return 0


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f) if x.get("status") == "open"]
