------------------------------- MODULE Search -------------------------------
(***************************************************************************)
(* The automatic search (P13, P14): trial circles through entry and exit   *)
(* points, and which of them may be reported.                              *)
(***************************************************************************)
EXTENDS Bishop

Circles(m) == LET k == RFloor(m.iters \oslash R("800")) IN IF k < 5 THEN 5 ELSE k
Loads(m)   == Len(m.udls) + Len(m.lls)

\* rows of entry points and exit points: at least m.iters circles altogether
TopPoints(m) == RFloor(RSqrt(m.iters \oslash RI(Circles(m))))
BotPoints(m) ==
  LET t == TopPoints(m) * Circles(m)
      f[k \in TopPoints(m)..(TopPoints(m) + 100000)] == IF RI(t * k) \prec m.iters THEN f[k+1] ELSE k
  IN  f[TopPoints(m)]
\* places next to loads take the place of evenly spaced ones, two are left
SpacedPoints(m) == LET k == TopPoints(m) - Loads(m) IN IF k < 2 THEN 2 ELSE k

OneMm == R("0.001")
Entries(m) ==
  LET n == SpacedPoints(m)
      even == [i \in 1..n |-> m.lim[1] \oplus ((RI(i-1) \oslash RI(n-1)) \otimes (m.lim[2] \ominus m.lim[1]))]
      lls  == [i \in 1..Len(m.lls) |-> LlCoord(m, m.lls[i]) \ominus OneMm]
      us   == [i \in 1..Len(m.udls) |-> UdlLeft(m, m.udls[i]) \ominus OneMm]
  IN  Force(Force(even) \o Force(lls) \o Force(us))
Exits(m) ==
  LET n == BotPoints(m)
  IN  Force([i \in 1..n |-> m.lim[3] \oplus ((RI(i) \oslash RI(n)) \otimes (m.lim[4] \ominus m.lim[3]))])

Dist(p, q) == RSqrt(Sq(p[1] \ominus q[1]) \oplus Sq(p[2] \ominus q[2]))
Slack == R("1e-6")

\* the last exit point is the far limit, which may be beyond the model by rounding
ExitPoint(m, x) == <<x, Ground(m, x)>>
EntryPoint(m, x) == <<x, TopY(m)>>

\* trial circles of one pair, if the pair is far enough apart
Trials(m, x, z) ==
  LET l == EntryPoint(m, x)  r == ExitPoint(m, z)
  IN  IF Dist(l, r) \preceq m.mind THEN <<>> ELSE Force(Fan(l, r, Circles(m)))

\* may a plane with these end points be reported?  (P13)
Inside(m, a, b, tol) ==
  /\ (m.lim[1] \ominus tol) \preceq a[1] /\ a[1] \preceq (m.lim[2] \oplus tol)
  /\ (m.lim[3] \ominus tol) \preceq b[1] /\ b[1] \preceq (m.lim[4] \oplus tol)
LongEnough(m, a, b, tol) == (m.mind \ominus tol) \prec Dist(a, b)

\* TRUE if rounding decides whether the plane may be reported
InsideTie(m, a, b) ==
  LET t == R("2e-6") IN
  \/ Inside(m, a, b, t) /\ ~Inside(m, a, b, RNeg(t)) /\ ~Inside(m, a, b, R("1e-9"))
  \/ Within(Dist(a, b), m.mind, t)
=============================================================================
