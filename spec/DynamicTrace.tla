---------------------------- MODULE DynamicTrace ----------------------------
(***************************************************************************)
(* Judges recorded dynamic analyses of the real library by the protocol    *)
(* of Dynamic.tla (P19).  One record per run:                              *)
(*   calls     calls on a default slope before the analysis                *)
(*   crit      target                                                      *)
(*   probes    [udls: offsets, lls: offsets, fos, ref, refobs] in order:   *)
(*             offsets of the loads and limits (lim) during the probe,     *)
(*             minimum factor of safety found; ref is <<>> (oracle runs) or the minimum      *)
(*             factor of safety of a slope built afresh with the loads     *)
(*             there, refobs is that slope as observed                     *)
(*   table     what get_dynamic_results returns, pairs <<offset, fos>>     *)
(*   ret       "0", "1" or "none"                                          *)
(*   final     the model as observed afterwards, min: <<>> or <<fos>>,     *)
(*             first probe whose results they are                          *)
(***************************************************************************)
EXTENDS Core, TLC, Json, IOUtils

Runs == ndJsonDeserialize(IOEnv.RUNS)
P == INSTANCE Dynamic WITH d <- 0, log <- 0, over <- 0, Width <- 0

VARIABLES pt, done

ModelOf(calls) ==
  FoldLeft(LAMBDA m, e: Op(m, e).m, EmptyModel(One, One \oslash RTan(R("30"))), calls)

\* all dynamic loads of m at offset x: they are taken off and put on again
AtOffset(m, x) ==
  LET us == [i \in 1..Len(m.udls) |-> IF m.udls[i].dyn THEN [m.udls[i] EXCEPT !.off = x] ELSE m.udls[i]]
      ls == [i \in 1..Len(m.lls) |-> IF m.lls[i].dyn THEN [m.lls[i] EXCEPT !.off = x] ELSE m.lls[i]]
  IN  FoldLeft(AddLl, FoldLeft(AddUdl, [m EXCEPT !.udls = <<>>, !.lls = <<>>], us \o <<>>), ls \o <<>>)

\* the furthest offset: loads of finite length stay on the crest
FarOf(m) ==
  RMax(Zero, RMinSeq(<<TopX(m)>> \o [i \in 1..Len(m.udls) |->
      IF m.udls[i].dyn /\ m.udls[i].len # <<>> THEN TopX(m) \ominus m.udls[i].len[1] ELSE TopX(m)])
             \ominus Cm)

Offsets(m) == [i \in 1..Len(m.udls) |-> m.udls[i].off]
OffsetsL(m) == [i \in 1..Len(m.lls) |-> m.lls[i].off]
\* the offset of a probe: that of any dynamic load
ProbeAt(m, p) ==
  LET us == {i \in 1..Len(m.udls): m.udls[i].dyn}  ls == {i \in 1..Len(m.lls): m.lls[i].dyn}
  IN  IF us # {} /\ Len(p.udls) = Len(m.udls) THEN <<p.udls[CHOOSE i \in us: TRUE]>>
      ELSE IF ls # {} /\ Len(p.lls) = Len(m.lls) THEN <<p.lls[CHOOSE i \in ls: TRUE]>>
      ELSE <<>>

\* observed model o is the expected one
ObsOk(x, o) ==
  /\ Close(o.top[2] \ominus o.bot[2], x.h) /\ Close(o.bot[1] \ominus o.top[1], x.L)
  /\ Close(o.extL, TotL(x)) /\ Close(o.extH, TotH(x)) /\ Close(o.top[1], TopX(x))
  /\ Bag([i \in 1..Len(o.mats) |-> <<o.mats[i].uw, o.mats[i].phi, o.mats[i].c, o.mats[i].d>>]) =
     Bag([i \in 1..Len(x.mats) |-> <<x.mats[i].uw, x.mats[i].phi, x.mats[i].c, x.mats[i].d>>])
  /\ Len(o.udls) = Len(x.udls) /\ Len(o.lls) = Len(x.lls)
  /\ \A i \in 1..Len(x.udls): \E j \in 1..Len(o.udls): LET u == o.udls[j] IN
       /\ u.q = x.udls[i].q /\ Close(u.off, x.udls[i].off) /\ u.len = x.udls[i].len
       /\ Close(u.left, UdlLeft(x, x.udls[i])) /\ Close(u.right, UdlRight(x, x.udls[i]))
  /\ \A i \in 1..Len(x.lls): \E j \in 1..Len(o.lls): LET l == o.lls[j] IN
       l.q = x.lls[i].q /\ Close(l.off, x.lls[i].off) /\ Close(l.x, LlCoord(x, x.lls[i]))
  /\ Len(o.wrl) = Len(x.water) /\ (x.water # <<>> => Close(o.wrl[1], WaterRL(x)))
  /\ "lim" \in Range(o.have) => CloseSeq(o.lim, x.lim)
  /\ "slices" \in Range(o.have) => o.slices = x.slices
  /\ "iters" \in Range(o.have) => o.iters = x.iters
  /\ "mind" \in Range(o.have) => Close(o.mind, x.mind)
  /\ "wH" \in Range(o.have) => Close(o.wH, x.wH)

Check(k, what, ok) == IF ok THEN TRUE ELSE PrintT("FAIL|" \o ToString(k) \o "|P19|" \o what)
Tol7 == R("1e-7")

\* follow the probes; s: [d: protocol state, m: model, ok: so far, why]
Follow(run, m0) ==
  LET far == FarOf(m0)
      n == Len(run.probes)
      f[i \in 0..n] ==
        IF i = 0 THEN [d |-> P!DStart, m |-> m0, ok |-> TRUE, why |-> ""]
        ELSE LET s == f[i-1]
                 p == run.probes[i]
                 x == ProbeAt(s.m, p)
                 m == AtOffset(s.m, x[1])
                 bad(w) == [s EXCEPT !.ok = FALSE, !.why = w]
             IN  IF ~s.ok THEN s
                 ELSE IF x = <<>> THEN bad("loads are there during every probe")
                 ELSE IF ~P!DMay(s.d, far, x[1])
                 THEN bad(IF s.d.ph = "crest" THEN "first probe at the crest"
                          ELSE IF s.d.ph = "far" THEN "second probe at the furthest offset"
                          ELSE IF s.d.ph = "end" THEN "no probe after the target is passed at an extreme offset"
                          ELSE IF s.d.k >= 10 THEN "at most ten further probes"
                          ELSE "probes stay inside the offsets that straddle the target")
                 ELSE IF ~(/\ Len(p.udls) = Len(m.udls) /\ Len(p.lls) = Len(m.lls)
                           /\ Bag(p.udls) = Bag(Offsets(m)) /\ Bag(p.lls) = Bag(OffsetsL(m)))
                 THEN bad("dynamic loads are at the offset of the probe, the others where they were")
                 ELSE IF ~CloseSeq(p.lim, m.lim)
                 THEN bad("the search limits during a probe are those of the model")
                 ELSE IF p.ref # <<>> /\ ~ObsOk(m, p.refobs)
                 THEN bad("HARNESS: the reference slope is not the model of the probe")
                 ELSE IF p.ref # <<>> /\ ~Within(p.ref[1], p.fos, Tol7 \otimes (One \oplus p.fos))
                 THEN bad("factor of safety of a probe is the minimum of the model with the loads there")
                 ELSE [s EXCEPT !.d = P!DProbe(s.d, run.crit, x[1], p.fos), !.m = m]
  IN  f[n]

Judge(k) ==
  LET run == Runs[k]
      m0 == ModelOf(run.calls)
      s == Follow(run, m0)
      n == Len(run.probes)
      at == [i \in 1..n |-> ProbeAt(m0, run.probes[i])[1]]
      last(x) == run.probes[CHOOSE i \in 1..n: at[i] = x /\ \A j \in (i+1)..n: at[j] # x].fos
  IN  /\ Check(k, s.why, s.ok)
      /\ IF ~s.ok THEN TRUE ELSE
         /\ Check(k, "ends only when the target is met, passed at an extreme offset, or after ten probes", P!DMayEnd(s.d, run.crit))
         /\ Check(k, "return value", run.ret = s.d.ret)
         /\ Check(k, "every probe is reported with its factor of safety, nothing else",
                  /\ {run.table[i][1] : i \in 1..Len(run.table)} = {at[i] : i \in 1..n}
                  /\ \A i \in 1..Len(run.table): run.table[i][2] = last(run.table[i][1]))
         /\ Check(k, "the model afterwards is that of the last probe", ObsOk(s.m, run.final))
         /\ Check(k, "the results afterwards are those of the last probe",
                  n > 0 /\ run.min = <<run.probes[n].fos>> /\ run.res = run.probes[n].res)

Init == pt \in 1..Len(Runs) /\ done = FALSE
Next == ~done /\ Judge(pt) /\ done' = TRUE /\ pt' = pt
Spec == Init /\ [][Next]_<<pt, done>>
=============================================================================
