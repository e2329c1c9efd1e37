------------------------------ MODULE WebForms ------------------------------
(***************************************************************************)
(* What a submitted form means: whether it is a form at all, and the calls *)
(* on the library it stands for (P24).  Fields are arguments as in Core:   *)
(* empty fields "none", fields that are no numbers "bad".                  *)
(*   f.mgmt      the formsets come with their management data              *)
(*   f.height, f.angle, f.length                                           *)
(*   f.mats      rows [uw, phi, c, d, name, col]                           *)
(*   f.udls      rows [q, off, len, col, dyn]                              *)
(*   f.lls       rows [q, off, col, dyn]                                   *)
(*   f.wet, f.depth                                                        *)
(*   f.lim, f.inner, f.left, f.lright, f.rleft, f.right                    *)
(*   f.analysis, f.by    "normal"/"dynamic", "length"/"angle"              *)
(*   f.crit, f.show, f.iters, f.slices                                     *)
(***************************************************************************)
EXTENDS Core, TLC, Json, IOUtils

IsWhole(a) == IsNum(a) /\ a.v = RI(RFloor(a.v))
Between(a, lo, hi) == IsNum(a) /\ R(lo) \preceq a.v /\ a.v \preceq R(hi)
Floats(s) == \A i \in 1..Len(s): IsNum(s[i])

FormOk(f) ==
  /\ f.mgmt
  /\ Floats(<<f.height, f.angle, f.length, f.depth, f.left, f.lright, f.rleft, f.right>>)
  /\ \A i \in 1..Len(f.mats): /\ Floats(<<f.mats[i].uw, f.mats[i].phi, f.mats[i].c, f.mats[i].d>>)
                              /\ Len(f.mats[i].name) <= 50 /\ Len(f.mats[i].col) <= 20
  /\ \A i \in 1..Len(f.udls): /\ Floats(<<f.udls[i].q, f.udls[i].off, f.udls[i].len>>)
                              /\ Len(f.udls[i].col) <= 20
  /\ \A i \in 1..Len(f.lls): /\ Floats(<<f.lls[i].q, f.lls[i].off>>) /\ Len(f.lls[i].col) <= 20
  /\ f.analysis \in {"normal", "dynamic"} /\ f.by \in {"length", "angle"}
  /\ Between(f.crit, "0", "5") /\ Between(f.show, "0", "5")
  /\ IsWhole(f.iters) /\ Between(f.iters, "500", "5000")
  /\ IsWhole(f.slices) /\ Between(f.slices, "10", "50")

E(op) == [op |-> op, s |-> "A"]
CallsOf(f) ==
  << IF f.by = "length" THEN E("new") @@ [height |-> f.height, angle |-> Num(R("30")), length |-> f.length]
     ELSE E("new") @@ [height |-> f.height, angle |-> f.angle, length |-> NoArg],
     E("options") @@ [slices |-> f.slices, iters |-> f.iters, mind |-> NoArg, tol |-> NoArg, maxit |-> NoArg] >>
  \o [i \in 1..Len(f.mats) |-> E("materials") @@ [items |-> << f.mats[i] @@ [k |-> "mat"] >>]]
  \o [i \in 1..Len(f.lls) |-> E("lls") @@ [items |-> << f.lls[i] @@ [k |-> "ll"] >>]]
  \o [i \in 1..Len(f.udls) |-> E("udls") @@ [items |-> << f.udls[i] @@ [k |-> "udl"] >>]]
  \o (IF f.wet THEN << E("water") @@ [depth |-> f.depth] >> ELSE <<>>)
  \o (IF f.lim THEN << E("limits") @@ [left |-> f.left, right |-> f.right,
                                       lright |-> IF f.inner THEN f.lright ELSE NoArg,
                                       rleft |-> IF f.inner THEN f.rleft ELSE NoArg] >> ELSE <<>>)
AnalysisOf(f) == IF f.analysis = "normal" THEN E("analyse") @@ [maxfos |-> Num(Five)]
                 ELSE E("dynamic") @@ [crit |-> f.crit.v]

\* what the page shows before anything is submitted
DefaultCalls ==
  << E("new") @@ [height |-> Num(One), angle |-> Num(R("45")), length |-> NoArg],
     E("materials") @@ [items |-> << [k |-> "mat", uw |-> Num(R("20")), phi |-> Num(R("35")), c |-> Num(Two),
                                      d |-> Num(Five), name |-> "", col |-> ""] >>],
     E("options") @@ [slices |-> Num(R("10")) @@ [t |-> "i"], iters |-> Num(R("500")) @@ [t |-> "i"], mind |-> NoArg, tol |-> NoArg, maxit |-> NoArg] >>
DefaultAnalysis == E("analyse") @@ [maxfos |-> Num(Five)]

CallOk(m, e) ==
  /\ \A i \in 1..(IF "items" \in DOMAIN e THEN Len(e.items) ELSE 0):
       LET x == e.items[i] IN
       CASE x.k = "mat" -> MatArgOk(x) [] x.k = "udl" -> UdlArgOk(x) [] x.k = "ll" -> LlArgOk(x)
  /\ Op(m, e).ok
\* the model of a sequence of calls, <<>> if one is refused
Built(calls) ==
  FoldLeft(LAMBDA m, e: IF m = <<>> THEN <<>> ELSE IF CallOk(m[1], e) THEN <<Op(m[1], e).m>> ELSE <<>>,
           <<EmptyModel(One, One \oslash RTan(R("30")))>>, calls)

Verdict(f) ==
  IF ~FormOk(f) THEN [verdict |-> "form", calls |-> <<>>, analysis |-> DefaultAnalysis]
  ELSE LET c == CallsOf(f)
       IN  [verdict |-> IF Built(c) = <<>> THEN "model" ELSE "ok", calls |-> c, analysis |-> AnalysisOf(f)]

-----------------------------------------------------------------------------
Forms == ndJsonDeserialize(IOEnv.FORMS)
VARIABLE done
Init == done = 0
Next == /\ done = 0
        /\ ndJsonSerialize(IOEnv.OUT, << [verdict |-> "ok", calls |-> DefaultCalls, analysis |-> DefaultAnalysis] >>
                                      \o [i \in 1..Len(Forms) |-> Verdict(Forms[i])])
        /\ done' = 1
Spec == Init /\ [][Next]_done
=============================================================================
