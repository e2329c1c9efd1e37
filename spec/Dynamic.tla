------------------------------ MODULE Dynamic -------------------------------
(***************************************************************************)
(* The protocol of a dynamic analysis (P19).                               *)
(*                                                                         *)
(* Each probe puts all dynamic loads at an offset and learns the minimum   *)
(* factor of safety there.  The oracle is arbitrary: any of the values Vs  *)
(* at any offset, the same value whenever an offset is tried again.  So    *)
(* the invariants hold whatever slope is analysed.                         *)
(*                                                                         *)
(* The protocol (DStart, DNext) is also what recorded runs of the library  *)
(* are judged by, in DynamicTrace.tla: there the probe is the recorded     *)
(* one.  Here it is the weighted point of the bracket.                     *)
(***************************************************************************)
EXTENDS Real64, Naturals, Sequences, TLC, IOUtils

MaxFurther == 10
Tol9 == R("1e-9")

\* meets the target, to three decimals
Meets(f, crit) == (crit \ominus R("0.0005")) \preceq f

(* State of the protocol:                                                   *)
(*   ph      "crest", "far", "search" or "end"                              *)
(*   lo, hi  offsets that straddle the target: f(lo) <= crit <= f(hi)       *)
(*   flo, fhi, k further probes made, last factor of safety, ret            *)
DStart == [ph |-> "crest", lo |-> Zero, hi |-> Zero, flo |-> Zero, fhi |-> Zero, k |-> 0, last |-> Zero, ret |-> "none"]

\* the offsets a next probe may have
DMay(d, far, x) ==
  CASE d.ph = "crest"  -> x = Zero
    [] d.ph = "far"    -> Within(x, far, Tol9)
    [] d.ph = "search" -> /\ d.k < MaxFurther
                          /\ (d.lo \ominus Tol9) \preceq x /\ x \preceq (d.hi \oplus Tol9)
    [] OTHER -> FALSE

\* a probe at x finds f
DProbe(d, crit, x, f) ==
  CASE d.ph = "crest" ->
         IF crit \prec f THEN [d EXCEPT !.ph = "end", !.last = f, !.ret = "0"]
         ELSE [d EXCEPT !.ph = "far", !.lo = x, !.flo = f, !.last = f]
    [] d.ph = "far" ->
         IF f \prec crit THEN [d EXCEPT !.ph = "end", !.last = f, !.ret = "1"]
         ELSE [d EXCEPT !.ph = "search", !.hi = x, !.fhi = f, !.last = f]
    [] d.ph = "search" ->
         LET e == [d EXCEPT !.k = @ + 1, !.last = f]
         IN  IF f \prec crit THEN [e EXCEPT !.lo = x, !.flo = f]
             ELSE [e EXCEPT !.hi = x, !.fhi = f]

\* may the analysis end here?
DMayEnd(d, crit) == \/ d.ph = "end"
                    \/ d.ph = "search" /\ (d.k = MaxFurther \/ Meets(d.last, crit))

-----------------------------------------------------------------------------
(* the machine: one offset range, every oracle *)
Crit == R("1.3")
Far  == R(IOEnv.FAR)
Vs   == {R("0.9"), R("1.2"), R("1.2996"), R("1.3"), R("1.304"), R("1.75")}
CONSTANT Width       \* after this many probes only the two extreme values are tried

VARIABLES d, log, over
vars == <<d, log, over>>

Known(x) == {log[i][2] : i \in {j \in 1..Len(log): log[j][1] = x}}
Answers(x) == IF Known(x) # {} THEN Known(x)
              ELSE IF Len(log) < Width THEN Vs ELSE {R("0.9"), R("1.75")}

Weighted == d.lo \oplus ((Crit \ominus d.flo) \oslash ((d.fhi \ominus d.flo) \oslash (d.hi \ominus d.lo)))
Point == CASE d.ph = "crest" -> Zero
           [] d.ph = "far" -> Far
           [] OTHER -> Weighted

\* when the weighted search gives up: nothing to weigh, or the target is met closely enough
Settled == LET f == d.last
               p == IF d.k < 2 THEN Zero ELSE log[Len(log) - 1][2]
           IN  /\ d.k >= 1
               /\ p # f
               /\ \/ RAbs(p \ominus f) \preceq R("0.01") \/ RAbs(f \ominus Crit) \preceq R("0.01")
               /\ Meets(f, Crit)
Flat == d.ph = "search" /\ d.flo = d.fhi

Init == d = DStart /\ log = <<>> /\ over = FALSE
Probe == /\ ~over /\ d.ph # "end" /\ d.k < MaxFurther /\ ~Settled /\ ~Flat
         /\ \E f \in Answers(Point):
              /\ d' = DProbe(d, Crit, Point, f)
              /\ log' = Append(log, <<Point, f>>)
         /\ over' = FALSE
End == /\ ~over
       /\ d.ph = "end" \/ (d.ph = "search" /\ (d.k = MaxFurther \/ Settled \/ Flat))
       /\ over' = TRUE /\ UNCHANGED <<d, log>>
       /\ PrintT("RUN|" \o ToString([i \in 1..Len(log) |-> log[i][2]]) \o "|")
Next == Probe \/ End
Spec == Init /\ [][Next]_vars

\* P19, for every oracle
P19_Bounded  == Len(log) <= MaxFurther + 2
P19_Straddle == d.ph = "search" => /\ d.flo \preceq Crit /\ Crit \preceq d.fhi
                                   /\ d.lo \preceq d.hi /\ Zero \preceq d.lo /\ d.hi \preceq Far
P19_Inside   == [][Probe => DMay(d, Far, Point)]_vars
P19_Ends     == over => DMayEnd(d, Crit)
P19_Safe     == (over /\ d.ret = "0") => Len(log) = 1 /\ Crit \prec log[1][2]
P19_Unsafe   == (over /\ d.ret = "1") => Len(log) = 2 /\ log[2][2] \prec Crit /\ log[1][2] \preceq Crit
P19_NoStuck  == over \/ ENABLED Next
=============================================================================
