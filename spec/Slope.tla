------------------------------- MODULE Slope --------------------------------
(***************************************************************************)
(* State machine of the library's interface: two slopes, A and B, and the  *)
(* calls a user makes on them, one at a time, in any order.                *)
(*                                                                         *)
(* A state holds for each slope its model and the model its results were   *)
(* computed for (<<>> if there are none).  The calls offered in a run are  *)
(* the sequence Alphabet (a JSON file); each step takes one of them, which *)
(* is accepted or refused as Core!Op says.                                 *)
(*                                                                         *)
(* Every transition TLC explores is printed as the sequence of calls that  *)
(* leads to it; the harness runs that sequence on the real library, and    *)
(* SlopeTrace.tla compares what happened there with this specification.    *)
(***************************************************************************)
EXTENDS Core, TLC, Json, IOUtils

CONSTANT MaxDepth

Alphabet == JsonDeserialize(IOEnv.ALPHABET)
Slopes == {"A", "B"}

VARIABLES ms,      \* slope -> model
          rs,      \* slope -> <<>> or <<model the results belong to>>
          path     \* indices of the calls so far (not part of the state's identity)
vars == <<ms, rs, path>>
View == <<ms, rs>>

Init0 == EmptyModel(One, One \oslash RTan(R("30")))

\* effect of call e on a pair of models and results
Apply(st, e) ==
  LET s == e.s
      r == Op(st.ms[s], e)
  IN
  IF ~r.ok THEN st
  ELSE IF e.op = "analyse" THEN [st EXCEPT !.rs[s] = <<st.ms[s]>>]
  ELSE IF e.op \in Mutators
       THEN [st EXCEPT !.ms[s] = r.m,
                       !.rs[s] = IF e.op = "plane" /\ r.m = st.ms[s] THEN @ ELSE <<>>]
       ELSE st

\* a run starts after the calls of the sequence Setup, made on two default slopes
Setup == JsonDeserialize(IOEnv.SETUP)
Start == FoldLeft(Apply, [ms |-> [s \in Slopes |-> Init0], rs |-> [s \in Slopes |-> <<>>]], Setup)
Init == ms = Start.ms /\ rs = Start.rs /\ path = <<>>

Call(s, e) == LET st == Apply([ms |-> ms, rs |-> rs], e) IN ms' = st.ms /\ rs' = st.rs

Next == /\ Len(path) < MaxDepth
        /\ \E i \in 1..Len(Alphabet):
             /\ Call(Alphabet[i].s, Alphabet[i])
             /\ path' = Append(path, i)

Spec == Init /\ [][Next]_vars

\* action constraint: writes the transition down for the replay
Record == PrintT("EDGE|" \o ToString(path'))

-----------------------------------------------------------------------------
(* what has to hold of every reachable state *)
ForAll(P(_)) == \A s \in Slopes: P(ms[s])

GeometryOf(m) ==
  /\ Close(TopY(m) \ominus BotY(m), m.h)
  /\ Close(BotX(m) \ominus TopX(m), m.L)
  /\ Close(TopX(m) \oplus BotX(m), TotL(m))
  /\ MinLength \preceq m.L
  /\ \A k \in 0..8:
       LET x == TopX(m) \oplus ((RI(k) \oslash RI(8)) \otimes m.L)
           y == SurfaceY(m, x)[1]
       IN  k \in 1..7 => Close(SurfaceX(m, y)[1], x)
  /\ SurfaceY(m, Zero) = <<TopY(m)>> /\ SurfaceY(m, TotL(m)) = <<BotY(m)>>
  /\ SurfaceY(m, RNeg(Eps)) = <<>> /\ SurfaceY(m, TotL(m) \oplus Eps) = <<>>
  /\ Zero \prec BotY(m)
P01_Geometry == ForAll(GeometryOf)

\* no stratum ends below the model, so every one is where it says it is
LevelsOf(m) ==
  /\ \A i \in 1..Len(m.mats): RNeg(Eps) \preceq MatRL(m, m.mats[i])
  /\ m.water # <<>> => /\ WaterRL(m) \preceq TopY(m)
                       /\ Zero \prec WaterRL(m) => Close(TopY(m) \ominus WaterRL(m), m.water[1])
P02_Levels == ForAll(LevelsOf)

FitsOf(m) ==
  /\ \A i \in 1..Len(m.udls):
       LET u == m.udls[i] IN
       /\ Zero \prec UdlRight(m, u)
       /\ u.len # <<>> => Close(UdlRight(m, u) \ominus UdlLeft(m, u), u.len[1])
  /\ \A i \in 1..Len(m.lls): Close(TopX(m) \ominus LlCoord(m, m.lls[i]), m.lls[i].off)
P03_LoadsFit == ForAll(FitsOf)

P04_NoStaleResults == \A s \in Slopes: rs[s] = <<>> \/ rs[s] = <<ms[s]>>

LoadsOf(m) == /\ \A i \in 1..Len(m.udls): Zero \prec m.udls[i].q
              /\ \A i \in 1..Len(m.lls): Zero \prec m.lls[i].q
P06_Loads == ForAll(LoadsOf)

StrataOf(m) == \A i \in 2..Len(m.mats): m.mats[i-1].d \prec m.mats[i].d
ColoursOf(m) == \A i \in 1..Len(m.mats): m.mats[i].ucol \in Colours => m.mats[i].col = m.mats[i].ucol
P08_Strata == ForAll(StrataOf) /\ ForAll(ColoursOf)

RangesOf(m) ==
  /\ Zero \prec m.h /\ Zero \prec m.minH /\ Zero \prec m.minL
  /\ \A i \in 1..Len(m.mats): LET x == m.mats[i] IN
       /\ UwLow \preceq x.uw /\ x.uw \preceq UwHigh /\ Zero \preceq x.phi /\ Zero \preceq x.c /\ Zero \preceq x.d
  /\ m.water # <<>> => Zero \preceq m.water[1]
  /\ \A i \in 1..Len(m.udls): Zero \preceq m.udls[i].off
P09_Ranges == ForAll(RangesOf)

OptionsOf(m) ==
  /\ SlicesLow \preceq m.slices /\ m.slices \preceq SlicesHigh
  /\ ItersLow \preceq m.iters /\ m.iters \preceq ItersHigh
  /\ Zero \preceq m.wH /\ m.wH \preceq One
  /\ m.wauto => Close(m.wH, AutoFactor(m))
P10_Options == ForAll(OptionsOf)

LimitsOf(m) ==
  /\ Zero \preceq m.lim[1] /\ m.lim[1] \prec m.lim[2] /\ m.lim[2] \preceq TopX(m)
  /\ TopX(m) \preceq m.lim[3] /\ m.lim[3] \prec m.lim[4] /\ m.lim[4] \preceq TotL(m)
P11_Limits == ForAll(LimitsOf)

-----------------------------------------------------------------------------
(* what has to hold of every step *)
This == Alphabet[path'[Len(path')]]
P07_RefusedChangesNothing == [][~Op(ms[This.s], This).ok => UNCHANGED <<ms, rs>>]_vars
P20_QueriesChangeNothing ==
  [][This.op \notin Mutators => ms' = ms /\ (This.op # "analyse" => rs' = rs)]_vars
P21_OthersUntouched == [][\A s \in Slopes \ {This.s}: ms'[s] = ms[s] /\ rs'[s] = rs[s]]_vars
\* removing a load leaves every other load where it was
P06_RemovalExact ==
  [][This.op \in {"rmudls", "rmlls", "rmmaterial"} =>
       /\ This.op # "rmudls"     => ms'[This.s].udls = ms[This.s].udls
       /\ This.op # "rmlls"      => ms'[This.s].lls = ms[This.s].lls
       /\ This.op # "rmmaterial" => ms'[This.s].mats = ms[This.s].mats
       /\ [ms'[This.s] EXCEPT !.udls = <<>>, !.lls = <<>>, !.mats = <<>>]
            = [ms[This.s] EXCEPT !.udls = <<>>, !.lls = <<>>, !.mats = <<>>]]_vars
=============================================================================
