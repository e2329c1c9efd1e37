----------------------------- MODULE SlopeTrace -----------------------------
(***************************************************************************)
(* Judges what the real library did against the specification.             *)
(*                                                                         *)
(* The harness runs sequences of calls on two slopes of the real library   *)
(* and records, as a forest, one node per call: the call, whether it       *)
(* raised, and what can be observed of both slopes afterwards (indices     *)
(* into the tables MObs of observed models and RObs of observed results;   *)
(* equal observations have equal indices).  Here every node becomes one    *)
(* step: the model of Core.tla is advanced with the call and each clause   *)
(* below is evaluated on what was observed.  Failing clauses are printed   *)
(* with the properties they decide.  Every step is judged on its own: the  *)
(* observed model is adopted where it differs from the expected one.       *)
(***************************************************************************)
EXTENDS Core, TLC, Json, IOUtils

Nodes == ndJsonDeserialize(IOEnv.NODES)
MObs  == ndJsonDeserialize(IOEnv.MOBS)
RObs  == ndJsonDeserialize(IOEnv.ROBS)
Roots == JsonDeserialize(IOEnv.ROOTS)
Slopes == {"A", "B"}

VARIABLES nd,     \* node reached
          ms,     \* slope -> model, differences to what was observed adopted
          ps,     \* slope -> <<>> or <<model that follows from the calls alone>>
          seen    \* analyses on the way here: [p: model, f: max_fos, r: results]
vars == <<nd, ms, ps, seen>>

Other(s) == IF s = "A" THEN "B" ELSE "A"
Mo(n, s) == IF s = "A" THEN n.oa ELSE n.ob
Re(n, s) == IF s = "A" THEN n.ra ELSE n.rb

-----------------------------------------------------------------------------
(* the expected model x against the observed model o, field by field *)
Has(o, f) == f \in Range(o.have)

GeomOk(x, o) ==
  /\ Close(o.top[2] \ominus o.bot[2], x.h)
  /\ Close(o.bot[1] \ominus o.top[1], x.L)
  /\ Close(o.top[1] \oplus o.bot[1], o.extL)
  /\ Close(o.extL, TotL(x)) /\ Close(o.extH, TotH(x)) /\ Close(o.top[2], o.extH)
ExtentsOk(x, o) == /\ Has(o, "minL") => Close(o.minL, x.minL)
                   /\ Has(o, "minH") => Close(o.minH, x.minH)

MatKey(a) == <<a.uw, a.phi, a.c, a.d, a.name>>
MatBag(s) == Bag([i \in 1..Len(s) |-> MatKey(s[i])])
MatsOk(x, o) == MatBag(x.mats) = MatBag(o.mats)
OrderOk(o)   == \A i \in 2..Len(o.mats): o.mats[i-1].d \prec o.mats[i].d
ColoursOk(x, o) == MatsOk(x, o) /\ Len(x.mats) = Len(o.mats) =>
                     \A i \in 1..Len(x.mats): o.mats[i].col = x.mats[i].col
LevelsOk(o)  == \A i \in 1..Len(o.mats):
                  /\ Close(o.mats[i].rl, o.top[2] \ominus o.mats[i].d)
                  /\ RNeg(Eps) \preceq o.mats[i].rl
WaterLevelOk(x, o) ==
  Len(o.wrl) = Len(x.water) =>
    (x.water # <<>> => Close(o.wrl[1], RMax(Zero, o.top[2] \ominus x.water[1])))
WaterOk(x, o) == Len(o.wrl) = Len(x.water) /\ (Has(o, "water") => o.water = x.water)

UdlBag(s) == Bag([i \in 1..Len(s) |-> <<s[i].q, s[i].off, s[i].len, s[i].dyn, s[i].col>>])
LlBag(s)  == Bag([i \in 1..Len(s) |-> <<s[i].q, s[i].off, s[i].dyn, s[i].col>>])
UdlsOk(x, o) == UdlBag(x.udls) = UdlBag(o.udls)
LlsOk(x, o)  == LlBag(x.lls) = LlBag(o.lls)
StripsOk(o) == \A i \in 1..Len(o.udls): LET u == o.udls[i] IN
  /\ Close(u.right, o.top[1] \ominus u.off)
  /\ Zero \prec u.right
  /\ IF u.len = <<>> THEN u.left = Zero
     ELSE RNeg(Eps) \preceq u.left /\ Close(u.left, u.right \ominus u.len[1])
PointsOk(o) == \A i \in 1..Len(o.lls):
  Zero \preceq o.lls[i].x /\ Close(o.lls[i].x, o.top[1] \ominus o.lls[i].off)

FactorOk(x, o)  == Has(o, "wH") => Close(o.wH, x.wH)
OptionsOk(x, o) == /\ Has(o, "slices") => o.slices = x.slices
                   /\ Has(o, "iters") => o.iters = x.iters
                   /\ Has(o, "mind") => Close(o.mind, x.mind)
                   /\ Has(o, "tol") => o.tol = x.tol
                   /\ Has(o, "maxit") => o.maxit = x.maxit
LimOk(x, o)     == Has(o, "lim") => CloseSeq(o.lim, x.lim)
LimOrderOk(o)   == Has(o, "lim") =>
                     /\ Zero \preceq o.lim[1] /\ o.lim[1] \prec o.lim[2] /\ o.lim[2] \preceq o.top[1]
                     /\ o.top[1] \preceq o.lim[3] /\ o.lim[3] \prec o.lim[4] /\ o.lim[4] \preceq o.extL
PlanesOk(x, o)  == Has(o, "planes") => SamePlanes(o.planes, x.planes)

\* the observed model as a model; hidden parts (automatic factor, user colours) are the specification's
AdoptMats(x, o) == IF MatsOk(x, o) /\ ColoursOk(x, o) THEN x.mats
                   ELSE ByDepth([i \in 1..Len(o.mats) |->
                      LET p == o.mats[i] IN [uw |-> p.uw, phi |-> p.phi, c |-> p.c, d |-> p.d,
                                             name |-> p.name, ucol |-> p.ucol, col |-> p.col]])
Adopt(x, o) ==
  [x EXCEPT
    !.h = o.top[2] \ominus o.bot[2],
    !.L = IF Has(o, "L") THEN o.L ELSE o.bot[1] \ominus o.top[1],
    !.minH = IF Has(o, "minH") THEN o.minH ELSE @,
    !.minL = IF Has(o, "minL") THEN o.minL ELSE @,
    !.mats = AdoptMats(x, o),
    !.udls = IF UdlsOk(x, o) THEN @ ELSE [i \in 1..Len(o.udls) |->
               [q |-> o.udls[i].q, off |-> o.udls[i].off, len |-> o.udls[i].len,
                dyn |-> o.udls[i].dyn, col |-> o.udls[i].col]],
    !.lls = IF LlsOk(x, o) THEN @ ELSE [i \in 1..Len(o.lls) |->
               [q |-> o.lls[i].q, off |-> o.lls[i].off, dyn |-> o.lls[i].dyn, col |-> o.lls[i].col]],
    !.water = IF (Len(o.wrl) = Len(x.water) /\ WaterLevelOk(x, o)) \/ ~Has(o, "water") THEN @ ELSE o.water,
    !.wH = IF Has(o, "wH") THEN o.wH ELSE @,
    !.lim = IF Has(o, "lim") THEN o.lim ELSE @,
    !.slices = IF Has(o, "slices") THEN o.slices ELSE @,
    !.iters = IF Has(o, "iters") THEN o.iters ELSE @,
    !.mind = IF Has(o, "mind") THEN o.mind ELSE @,
    !.tol = IF Has(o, "tol") THEN o.tol ELSE @,
    !.maxit = IF Has(o, "maxit") THEN o.maxit ELSE @,
    !.planes = IF Has(o, "planes") THEN o.planes ELSE @]
\* the height is the one of the call unless that is not what is observed (no rounding drift)
AdoptH(x, o) == LET y == Adopt(x, o) IN
  [y EXCEPT !.h = IF Has(o, "h") THEN o.h ELSE IF Close(@, x.h) THEN x.h ELSE @]

-----------------------------------------------------------------------------
(* results *)
NoResults(r) == r.fos = <<>> /\ r.min = <<>> /\ r.circle = <<>> /\ r.ends = <<>>
Sorted(s) == \A i \in 2..Len(s): s[i-1] \preceq s[i]
\* the getters describe the first of the reported planes
GettersOk(r) ==
  \/ NoResults(r)
  \/ /\ r.fos # <<>> /\ r.min # <<>> /\ r.circle # <<>> /\ r.ends # <<>>
     /\ r.min[1] = r.fos[1]
     /\ r.first # <<>> =>
          LET f == r.first[1] IN
          /\ r.circle = <<f.cx, f.cy, f.r>>
          /\ r.ends = <<f.lx, f.ly, f.rx, f.ry>>
Tol7 == R("1e-7")
CloseR(a, b) == a = b \/ Within(a, b, Tol7 \otimes (One \oplus RMax(RAbs(a), RAbs(b))))
SameResults(a, b) ==
  /\ Len(a.fos) = Len(b.fos)
  /\ \A i \in 1..Len(a.fos): CloseR(a.fos[i], b.fos[i])
  /\ \/ Len(a.fos) >= 2 /\ CloseR(a.fos[1], a.fos[2])      \* a tie: either may come first
     \/ a.first = b.first
     \/ /\ a.first # <<>> /\ b.first # <<>>
        /\ LET f == a.first[1]  g == b.first[1]
           IN  /\ CloseR(f.cx, g.cx) /\ CloseR(f.cy, g.cy) /\ CloseR(f.r, g.r)
               /\ CloseR(f.lx, g.lx) /\ CloseR(f.rx, g.rx)
  /\ \A i \in 1..Len(a.sums): CloseR(a.sums[i], b.sums[i])

-----------------------------------------------------------------------------
(* clauses: <<properties, name, holds>> *)
C(props, name, ok) == [p |-> props, c |-> name, ok |-> ok]

OutcomeProps(e) ==
  CASE e.op \in {"mkmat", "mkudl", "mkll", "new", "boundary", "extents", "water"} -> {"P09"}
    [] e.op = "materials" -> {"P08", "P09"}
    [] e.op \in {"udls", "rmudls", "lls", "rmlls", "rmmaterial", "rmwater"} -> {"P06"}
    [] e.op \in {"wopts", "options"} -> {"P10"}
    [] e.op \in {"limits", "rmlimits"} -> {"P11"}
    [] e.op \in {"plane", "entryexit"} -> {"P12"}
    [] e.op \in {"rmplanes", "analyse"} -> {"P15"}
    [] OTHER -> {"P20"}

MustBeValueError(e) ==
  /\ e.op \in {"mkmat", "mkudl", "mkll", "new", "boundary", "extents", "water", "materials", "limits", "wopts"}
  /\ e.op \in {"new", "boundary"} => Given(e.height)

\* which properties the fields a call must not touch belong to
FrameProps(e) ==
  CASE e.op \in {"udls", "rmudls", "lls", "rmlls", "materials", "rmmaterial", "water", "rmwater"} -> {"P06"}
    [] e.op \in {"wopts", "options"} -> {"P10"}
    [] e.op \in {"limits", "rmlimits"} -> {"P11"}
    [] e.op \in {"plane", "entryexit", "rmplanes"} -> {"P15"}
    [] OTHER -> {}

AllFieldsOk(x, o) ==
  /\ GeomOk(x, o) /\ ExtentsOk(x, o) /\ MatsOk(x, o) /\ OrderOk(o) /\ WaterOk(x, o) /\ UdlsOk(x, o) /\ LlsOk(x, o)
  /\ FactorOk(x, o) /\ OptionsOk(x, o) /\ LimOk(x, o) /\ PlanesOk(x, o)

\* a planes call whose outcome rounding decides is not judged
Ambiguous(m, e) ==
  \/ e.op = "plane" /\ Crossings(m, e).amb
  \/ e.op = "entryexit" /\ Op(m, e).ok
     /\ \E i \in 1..e.n: Crossings(m, Fan(<<e.l, SurfaceY(m, e.l)[1]>>, <<e.r, SurfaceY(m, e.r)[1]>>, e.n)[i]).amb

ModelClauses(x, o) ==
  << C({"P01"}, "crest, toe and extents follow from height, length and extent options", GeomOk(x, o)),
     C({"P01"}, "minimum extents as configured or as loads and strata need", ExtentsOk(x, o)),
     C({"P02"}, "every stratum ends at its depth below the crest, inside the model", LevelsOk(o)),
     C({"P02"}, "water level at its depth below the crest or the model base", WaterLevelOk(x, o)),
     C({"P03"}, "uniform loads act over their strip behind the crest, wholly on the model", StripsOk(o)),
     C({"P03"}, "line loads act at their offset behind the crest, on the model", PointsOk(o)),
     C({"P06"}, "strata are those added and not removed", MatsOk(x, o)),
     C({"P06"}, "uniform loads are those added and not removed", UdlsOk(x, o)),
     C({"P06"}, "line loads are those added and not removed", LlsOk(x, o)),
     C({"P06"}, "water table is the one set and not removed", WaterOk(x, o)),
     C({"P08"}, "strata ordered by depth, no depth twice", OrderOk(o)),
     C({"P08"}, "stratum colours: the user's, else by position", ColoursOk(x, o)),
     C({"P10"}, "water factor", FactorOk(x, o)),
     C({"P10"}, "analysis options", OptionsOk(x, o)),
     C({"P11"}, "analysis limits", LimOk(x, o)),
     C({"P11"}, "analysis limits in order and inside the model", LimOrderOk(o)),
     C({"P15"}, "user planes are those added", PlanesOk(x, o)) >>

\* node n, its parent p, the models before
CreatedOk(e, v) ==
  CASE e.op = "mkmat" -> LET x == MatOf(e.item) IN
         v.uw = x.uw /\ v.phi = x.phi /\ v.c = x.c /\ v.d = x.d /\ v.name = x.name
    [] e.op = "mkudl" -> LET x == UdlOf(e.item) IN
         v.q = x.q /\ v.off = x.off /\ v.len = x.len /\ v.col = x.col /\ v.dyn = x.dyn
    [] e.op = "mkll" -> LET x == LlOf(e.item) IN
         v.q = x.q /\ v.off = x.off /\ v.col = x.col /\ v.dyn = x.dyn

\* surface at the slope's own crest and toe and at the ends of the model: y at x, then x at y
CornersOk(m, v) ==
  LET want == <<TopY(m), TopY(m), BotY(m), BotY(m), TopX(m), BotX(m)>>
  IN  Len(v) = 6 /\ \A i \in 1..6: Len(v[i]) = 1 /\ Close(v[i][1], want[i])
QueryOk(m, e, v) ==
  CASE e.op = "surfacey" -> LET y == SurfaceY(m, e.x) IN Len(y) = Len(v) /\ (y # <<>> => Close(y[1], v[1]))
    [] e.op = "surfacex" -> LET x == SurfaceX(m, e.y) IN Len(x) = Len(v) /\ (x # <<>> => Close(x[1], v[1]))
    [] e.op = "corners"  -> CornersOk(m, v)
    [] OTHER -> TRUE
QueryTie(m, e) ==
  CASE e.op = "surfacey" -> Within(e.x, Zero, Eps) \/ Within(e.x, TotL(m), Eps)
    [] e.op = "surfacex" -> Within(e.y, BotY(m), Eps) \/ Within(e.y, TotH(m), Eps)
    [] OTHER -> FALSE

Comparable(x, e, pure) == pure # <<>> /\ x.f = e.maxfos /\ SameModel(x.p, pure[1])
Compared(e, pure) == e.op = "analyse" /\ \E i \in 1..Len(seen): Comparable(seen[i], e, pure)

Clauses(p, n, mm, pp) ==
  LET e == n.e
      s == e.s
      m == mm[s]
      r == IF e.op \in Creators THEN [ok |-> CreatorOk(e), m |-> m] ELSE Op(m, e)
      ok == n.out = "ok"
      o == MObs[Mo(n, s)]
      res == RObs[Re(n, s)]
      same == Mo(n, s) = Mo(p, s) /\ Re(n, s) = Re(p, s)
  IN  << C({"P21"}, "the other slope is untouched",
            Mo(n, Other(s)) = Mo(p, Other(s)) /\ Re(n, Other(s)) = Re(p, Other(s))),
         C({"P15", "P04"}, "getters describe the first reported plane", GettersOk(res)),
         C({"P15"}, "reported planes in ascending order of factor of safety", Sorted(res.fos)) >>
      \o (IF e.op \in Mutators \cup Creators
          THEN << C(OutcomeProps(e), "accepted or refused as specified", ok = r.ok),
                  C(OutcomeProps(e), "refused with a ValueError", ok \/ r.ok \/ ~MustBeValueError(e) \/ n.out = "ValueError") >>
          ELSE <<>>)
      \o (IF ~ok THEN << C({"P07"}, "a refused call changes neither model nor results", same) >> ELSE <<>>)
      \o (IF e.op \in Creators
          THEN << C({"P21", "P20"}, "creating an object leaves slopes alone", same) >>
               \o (IF ok /\ r.ok THEN << C({"P09"}, "values are normalised", CreatedOk(e, n.val)) >> ELSE <<>>)
          ELSE <<>>)
      \o (IF e.op \in Mutators /\ ok /\ r.ok /\ ~Ambiguous(m, e)
          THEN ModelClauses(r.m, o)
               \o << C(FrameProps(e), "nothing else is changed", AllFieldsOk(r.m, o)),
                     C({"P04"}, "no results after a change", NoResults(res) \/ (r.m = m /\ same)) >>
          ELSE <<>>)
      \o (IF e.op \notin (Mutators \cup Creators)
          THEN IF e.op = "analyse"
               THEN << C({"P20"}, "an analysis does not change the model", Mo(n, s) = Mo(p, s)),
                       C({"P15"}, "a model with strata and planes can be analysed", ok) >>
               ELSE IF e.op = "dynamic" THEN <<>>
               ELSE << C({"P20"}, "looking does not change model or results", same),
                       C({"P01"}, "surface queries agree with the profile", QueryTie(m, e) \/ QueryOk(m, e, n.val)),
                       C({"P20", "P22"}, "queries and boundary plots of any model succeed", ok \/ e.op \in {"critical", "allplanes"}),
                     C({"P04"}, "no failure plots without results", e.op \in {"critical", "allplanes"} /\ ok => ~NoResults(res)),
                     C({"P23"}, "failure plots of any results succeed", e.op \in {"critical", "allplanes"} /\ ~NoResults(res) => ok) >>
          ELSE <<>>)
      \o (IF e.op = "analyse" /\ ok
          THEN [i \in 1..Len(seen) |->
                 C({"P04", "P05"}, "equal models give equal results",
                   Comparable(seen[i], e, pp[s]) => SameResults(RObs[seen[i].r], res))]
          ELSE <<>>)

-----------------------------------------------------------------------------
Default == EmptyModel(One, One \oslash RTan(R("30")))
Init == \E i \in Range(Roots):
          /\ nd = i
          /\ ms = [s \in Slopes |-> AdoptH(Default, MObs[Mo(Nodes[i], s)])]
          /\ ps = [s \in Slopes |-> <<Default>>]
          /\ seen = <<>>

Report(k, cs) ==
  \A i \in 1..Len(cs):
    IF cs[i].ok THEN TRUE
    ELSE PrintT("FAIL|" \o ToString(k) \o "|" \o ToString(cs[i].p) \o "|" \o cs[i].c)

Next == \E k \in Range(Nodes[nd].kids):
  LET p == Nodes[nd]
      n == Nodes[k]
      s == n.e.s
      cs == Clauses(p, n, ms, ps)
      x == IF n.out = "ok" /\ n.e.op \in Mutators THEN Op(ms[s], n.e).m ELSE ms[s]
      pure == ps[s]
      pr == Op(pure[1], n.e)
      judged == n.e.op \in Mutators => (pr.ok = (n.out = "ok")) /\ ~Ambiguous(pure[1], n.e)
  IN  /\ Report(k, cs)
      /\ nd' = k
      /\ ms' = [t \in Slopes |-> AdoptH(IF t = s THEN x ELSE ms[t], MObs[Mo(n, t)])]
      /\ seen' = IF n.e.op = "analyse" /\ n.out = "ok"
                    /\ pure # <<>>
                 THEN Append(seen, [p |-> pure[1], f |-> n.e.maxfos, r |-> Re(n, s)]) ELSE seen
      /\ ps' = [ps EXCEPT ![s] = IF n.e.op = "new" /\ n.out = "ok"
                                 THEN IF NewSlope(Default, n.e).ok THEN <<NewSlope(Default, n.e).m>> ELSE <<>>
                                 ELSE IF pure = <<>> \/ n.e.op = "dynamic" \/ ~judged THEN <<>>
                                 ELSE IF n.e.op \in Mutators /\ n.out = "ok" THEN <<pr.m>> ELSE pure]
      /\ IF Compared(n.e, pure) THEN PrintT("CMP|" \o ToString(k)) ELSE TRUE

Spec == Init /\ [][Next]_vars
=============================================================================
