---------------------------- MODULE ReportTrace ----------------------------
(***************************************************************************)
(* Judges the texts the library prints (P30).  One record per history:     *)
(*   calls   calls on a default slope                                      *)
(*   slope, mats, udls, lls  what the objects print as: [nums: the         *)
(*           numbers of the text in order, ends: the text says the load    *)
(*           is continuous, named: the text contains the name]             *)
(*   dyn     <<>> or <<[ret, table, lines]>>: what a dynamic analysis      *)
(*           returned and recorded ("none": it converged), and the         *)
(*           numbers of each line of print_dynamic_results                 *)
(***************************************************************************)
EXTENDS Core, TLC, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.JOBS)
VARIABLES pt, done

ModelOf(calls) ==
  FoldLeft(LAMBDA m, e: Op(m, e).m, EmptyModel(One, One \oslash RTan(R("30"))), calls)

\* the three decimals of a printed number, a rounding error aside
Shown(x, y) == Within(x, y, R("0.000500001") \oplus (R("1e-12") \otimes RAbs(y)))
ShownSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s): Shown(s[i], t[i])

SlopeText(m)  == << m.h, m.L >>
MatText(x)    == << x.uw, x.phi, x.c, x.d >>
UdlText(u)    == << u.q, u.off >> \o u.len
LlText(l)     == << l.q, l.off >>

Check(k, what, ok) == IF ok THEN TRUE ELSE PrintT("FAIL|" \o ToString(k) \o "|P30|" \o what)

Judge(k) ==
  LET j == Jobs[k]
      m == ModelOf(j.calls)
      d == j.dyn[1]
  IN  /\ Check(k, "a slope prints its height and the length of its face", ShownSeq(j.slope.nums, SlopeText(m)))
      /\ Check(k, "a stratum prints its name, unit weight, friction angle, cohesion and depth",
           /\ Len(j.mats) = Len(m.mats)
           /\ \A i \in 1..Len(m.mats): j.mats[i].named /\ ShownSeq(j.mats[i].nums, MatText(m.mats[i])))
      /\ IF j.dyn # <<>> THEN TRUE ELSE
         /\ Check(k, "a distributed load prints its magnitude, offset and length, or that it is continuous",
              /\ Len(j.udls) = Len(m.udls)
              /\ \A i \in 1..Len(m.udls): /\ ShownSeq(j.udls[i].nums, UdlText(m.udls[i]))
                                          /\ j.udls[i].ends = (m.udls[i].len = <<>>))
         /\ Check(k, "a line load prints its magnitude and offset",
              /\ Len(j.lls) = Len(m.lls)
              /\ \A i \in 1..Len(m.lls): ShownSeq(j.lls[i].nums, LlText(m.lls[i])))
      /\ IF j.dyn = <<>> THEN TRUE ELSE
         /\ Check(k, "one line per recorded pair of offset and factor of safety, to three decimals, in the order of the results",
              /\ Len(d.lines) = Len(d.table)
              /\ \A i \in 1..Len(d.lines): ShownSeq(d.lines[i], d.table[i]))
         /\ Check(k, "the pairs of an analysis that converged are listed from the lowest factor of safety up",
              d.ret = "none" => \A i \in 2..Len(d.table): d.table[i-1][2] \preceq d.table[i][2])

Init == pt \in 1..Len(Jobs) /\ done = FALSE
Next == ~done /\ Judge(pt) /\ done' = TRUE /\ pt' = pt
Spec == Init /\ [][Next]_<<pt, done>>
=============================================================================
