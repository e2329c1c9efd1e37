--------------------------- MODULE AnalysisTrace ----------------------------
(***************************************************************************)
(* Judges recorded analyses of the real library (P12 - P18).               *)
(*                                                                         *)
(* A job is one analysis: the calls that build the model, and what was     *)
(* reported.  The model follows from the calls (Core), the expected end    *)
(* points, planes and factors of safety from the model.  A job is cut into *)
(* parts so that TLC's workers share it; each part is one state.           *)
(*   job.calls   calls on a default slope                                  *)
(*   job.maxfos  argument of the analysis                                  *)
(*   job.all     <<factors of safety reported when there is no max_fos>>     *)
(*   job.rep     reported planes [cx, cy, r, lx, ly, rx, ry, fos]          *)
(*               in the order they are reported                            *)
(*   job.bycx    indices of job.rep in ascending order of cx               *)
(*   job.min, job.circle, job.ends    what the getters return              *)
(* part: [j: job, kind, a, b]                                              *)
(*   "list"     the list as a whole and the getters                        *)
(*   "plane"    reported planes a..b: end points, factor of safety,        *)
(*              limits, and that the plane is one of the candidates        *)
(*   "user"     user planes a..b of the model: reported if and only if     *)
(*              there is a factor of safety                                *)
(*   "entry"    trial circles of entry points a..b: likewise               *)
(***************************************************************************)
EXTENDS Search, TLC, Json, IOUtils

Jobs  == ndJsonDeserialize(IOEnv.JOBS)
Parts == ndJsonDeserialize(IOEnv.PARTS)

VARIABLES pt, done
vars == <<pt, done>>

ModelOf(job) ==
  FoldLeft(LAMBDA m, e: Op(m, e).m, EmptyModel(One, One \oslash RTan(R("30"))), job.calls)

\* circles the user asked for of which rounding decides whether they cross the ground twice
DoubtOf(job) ==
  FoldLeft(LAMBDA q, e:
     LET new == CASE e.op = "plane" -> <<e>>
                  [] e.op = "entryexit" ->
                       LET l == SurfaceY(q.m, e.l)  r == SurfaceY(q.m, e.r)
                       IN  IF l = <<>> \/ r = <<>> \/ e.r = e.l THEN <<>>
                           ELSE Fan(<<e.l, l[1]>>, <<e.r, r[1]>>, e.n)
                  [] OTHER -> <<>>
     IN  [m |-> IF new = <<>> THEN Op(q.m, e).m ELSE q.m, d |-> q.d \o SelectSeq(new, LAMBDA c: Crossings(q.m, c).amb)],
     [m |-> EmptyModel(One, One \oslash RTan(R("30"))), d |-> <<>>], job.calls).d

Fail2(k, props, what) == PrintT("FAIL|" \o ToString(k) \o "|" \o ToString(props) \o "|" \o what)
Check(k, props, what, ok) == IF ok THEN TRUE ELSE Fail2(k, props, what)
Count(what, n) == IF n = 0 THEN TRUE ELSE PrintT("COUNT|" \o what \o "|" \o ToString(n))

\* which property a factor of safety decides
FosProps(m) == IF m.water # <<>> THEN IF Loads(m) = 0 THEN {"P18"} ELSE {"P17", "P18"}
               ELSE IF Loads(m) # 0 THEN {"P17"} ELSE {"P16"}

Tol6 == R("1e-6")
Near(x, y) == Within(x, y, Tol6 \otimes (One \oplus RMax(RAbs(x), RAbs(y))))
SameCircle(p, q) == Near(p.cx, q.cx) /\ Near(p.cy, q.cy) /\ Near(p.r, q.r)

Below(job, f) == job.maxfos.k = "none" \/ f \preceq job.maxfos.v
\* rounding decides whether a plane exceeds max_fos: judged on the planes reported only
-----------------------------------------------------------------------------
(* reported planes equal to circle c, by bisection on cx *)
FirstAt(job, x) ==
  LET f[lo \in 1..(Len(job.bycx) + 1), hi \in 1..(Len(job.bycx) + 1)] ==
        IF lo = hi THEN lo
        ELSE LET mid == (lo + hi) \div 2
             IN  IF job.rep[job.bycx[mid]].cx \prec x THEN f[mid + 1, hi] ELSE f[lo, mid]
  IN  f[1, Len(job.bycx) + 1]
Matches(job, c) ==
  LET t == Tol6 \otimes (One \oplus RAbs(c.cx))
      i0 == FirstAt(job, c.cx \ominus t)
      f[i \in i0..(Len(job.bycx) + 1)] ==
        IF i > Len(job.bycx) THEN {}
        ELSE LET k == job.bycx[i] IN
             IF (c.cx \oplus t) \prec job.rep[k].cx THEN {}
             ELSE (IF SameCircle(job.rep[k], c) THEN {k} ELSE {}) \cup f[i + 1]
  IN  f[i0]

-----------------------------------------------------------------------------
ListPart(k, job, m) ==
  LET n == Len(job.rep) IN
  /\ Check(k, {"P15"}, "planes are reported in ascending order of factor of safety",
           \A i \in 2..n: job.rep[i-1].fos \preceq job.rep[i].fos)
  /\ Check(k, {"P15"}, "no reported plane exceeds max_fos", \A i \in 1..n: Below(job, job.rep[i].fos))
  /\ Check(k, {"P15"}, "exactly the planes up to max_fos are reported",
           job.all # <<>> /\ job.maxfos.k = "n" =>
             [i \in 1..n |-> job.rep[i].fos] \o <<>> = SelectSeq(job.all[1], LAMBDA f: Below(job, f)))
  /\ Check(k, {"P15"}, "minimum factor of safety, circle and end points are those of the first plane",
           IF n = 0 THEN job.min = <<>> /\ job.circle = <<>> /\ job.ends = <<>>
           ELSE LET p == job.rep[1] IN
                job.min = <<p.fos>> /\ job.circle = <<p.cx, p.cy, p.r>> /\ job.ends = <<p.lx, p.ly, p.rx, p.ry>>)
  /\ Check(k, {"P15"}, "nothing is reported twice",
           m.planes # <<>> => n <= Len(m.planes) \/ n <= Len(m.planes) + Len(DoubtOf(job)))
  /\ IF m.planes = <<>> /\ Loads(m) = 0
     THEN Check(0, {"P14"}, "specification: trials are at least the iterations",
                m.iters \preceq RI(Len(Entries(m)) * Len(Exits(m)) * Circles(m)))
     ELSE TRUE

EndsOk(p, c, tol) == /\ Within(p.lx, c.pts[1][1], tol) /\ Within(p.ly, c.pts[1][2], tol)
                     /\ Within(p.rx, c.pts[2][1], tol) /\ Within(p.ry, c.pts[2][2], tol)
OnCircle(p, x, y) == Within(Dist(<<x, y>>, <<p.cx, p.cy>>), p.r, Tol6 \otimes (One \oplus p.r))
OnGround(m, x, y) == /\ RNeg(Tol6) \preceq x /\ x \preceq (TotL(m) \oplus Tol6)
                     /\ Within(Ground(m, x), y, Tol6 \otimes (One \oplus Grad(m)))

\* does circle p pass through one of the entry points and one of the exit points, as one of the fan?
IsTrial(m, en, ex, p) ==
  \E i \in 1..Len(en):
    /\ OnCircle(p, en[i], TopY(m))
    /\ \E j \in 1..Len(ex):
         LET q == ExitPoint(m, ex[j]) IN
         /\ OnCircle(p, q[1], q[2])
         /\ \E c \in Range(Trials(m, en[i], ex[j])): SameCircle(p, c)

PlanePart(k, job, m, v, a, b) ==
  LET auto == m.planes = <<>>
      en == IF auto THEN Entries(m) ELSE <<>>
      ex == IF auto THEN Exits(m) ELSE <<>>
  IN \A i \in a..b:
  LET p == job.rep[i]
      c == Crossings(m, p)
      l == <<p.lx, p.ly>>   r == <<p.rx, p.ry>>
      vals == FosOk(m, v, p, p.lx, p.rx, <<p.fos>>)
  IN  /\ Check(k, {"P12"}, "end points lie on the circle", OnCircle(p, p.lx, p.ly) /\ OnCircle(p, p.rx, p.ry))
      /\ Check(k, {"P12"}, "end points lie on the ground", OnGround(m, p.lx, p.ly) /\ OnGround(m, p.rx, p.ry))
      /\ Check(k, {"P12"}, "entry is left of exit", p.lx \prec p.rx)
      /\ Check(k, {"P12"}, "end points are the first two crossings of circle and ground",
               c.amb \/ (c.ok /\ EndsOk(p, c, Tol6 \otimes (One \oplus p.r))))
      /\ IF auto
         THEN /\ Check(k, {"P13"}, "planes enter and exit within the limits", Inside(m, l, r, R("2e-6")))
              /\ Check(k, {"P13"}, "planes are longer than the minimum failure distance", LongEnough(m, l, r, R("1e-9")))
              /\ Check(k, {"P14"}, "planes are circles through an entry and an exit point of the grid", IsTrial(m, en, ex, p))
         ELSE Check(k, {"P15"}, "only user planes are reported",
                      (\E q \in Range(m.planes): SameCircle(p, q)) \/ \E q \in Range(DoubtOf(job)): SameCircle(p, q))
      /\ IF vals.amb THEN Count("fos skipped, rounding decides", 1)
         ELSE /\ Check(k, FosProps(m), "factor of safety", vals.ok)
              /\ Check(k, {"P15", "P16"}, "a plane without driving moment or strata is not reported", m.mats # <<>>)


\* candidate circle c: reported exactly if it has a factor of safety
Candidate(k, job, m, v, c, auto) ==
  LET x == Crossings(m, c)
      hit == Matches(job, c)
      a == x.pts[1]  b == x.pts[2]
  IN  IF x.amb THEN Count("candidates skipped, rounding decides", 1)
      ELSE IF ~x.ok THEN Check(k, {"P12"}, "a circle that does not cross the ground twice is not reported", auto \/ hit = {})
      ELSE IF auto /\ InsideTie(m, a, b) THEN Count("candidates skipped, rounding decides", 1)
      ELSE IF auto /\ ~(Inside(m, a, b, Tol6) /\ LongEnough(m, a, b, Zero))
      THEN TRUE              \* whatever is reported is judged by PlanePart
      ELSE IF hit # {} THEN TRUE
      ELSE LET q == FosOk(m, v, c, a[1], b[1], <<>>)
               over == job.maxfos.k = "n"
           IN  IF q.amb THEN Count("candidates skipped, rounding decides", 1)
               ELSE
                    /\ IF over THEN
                         \* it must exceed max_fos
                         LET S == Slices(m, v, c, a[1], b[1])
                             w == (b[1] \ominus a[1]) \oslash m.slices
                             it == Iterate(m, S, w, Ordinary(S, w))
                         IN  Check(k, {"P15"}, "planes below max_fos are reported",
                                q.ok \/ (it # <<>> /\ (job.maxfos.v \ominus (m.tol \oplus Tol6)) \prec it[1]))
                       ELSE Check(k, IF auto THEN {"P14", "P15"} \cup FosProps(m) ELSE {"P15"} \cup FosProps(m),
                                  "every candidate with a factor of safety is reported", q.ok)

UserPart(k, job, m, v, a, b) ==
  LET d == DoubtOf(job) IN
  \A i \in {x \in a..b: x <= Len(m.planes)}:
    IF Matches(job, m.planes[i]) = {} /\ (\E q \in Range(d): SameCircle(m.planes[i], q)) THEN Count("candidates skipped, rounding decides", 1)
    ELSE Candidate(k, job, m, v, m.planes[i], FALSE)

EntryPart(k, job, m, v, a, b) ==
  LET en == Entries(m)  ex == Exits(m) IN
  \A i \in {x \in a..b: x <= Len(en)}: \A j \in 1..Len(ex):
    \A c \in Range(Trials(m, en[i], ex[j])): Candidate(k, job, m, v, c, TRUE)

Judge(i) ==
  LET p == Parts[i]
      job == Jobs[p.j]
      m == ModelOf(job)
      v == Env(m)
  IN  CASE p.kind = "list"  -> ListPart(p.j, job, m)
        [] p.kind = "plane" -> PlanePart(p.j, job, m, v, p.a, p.b)
        [] p.kind = "user"  -> UserPart(p.j, job, m, v, p.a, p.b)
        [] p.kind = "entry" -> EntryPart(p.j, job, m, v, p.a, p.b)

Init == pt \in 1..Len(Parts) /\ done = FALSE
Next == ~done /\ Judge(pt) /\ done' = TRUE /\ pt' = pt
Spec == Init /\ [][Next]_vars
=============================================================================
