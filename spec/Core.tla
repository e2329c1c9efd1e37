-------------------------------- MODULE Core --------------------------------
(***************************************************************************)
(* The model a user builds with PySlope, and every editing call as a       *)
(* function on models.                                                     *)
(*                                                                         *)
(* A model m is a record                                                   *)
(*   h, L         slope height and (horizontal) length                     *)
(*   minH, minL   minimum extents of the model                             *)
(*   mats         sequence of strata  [uw, phi, c, d, name, ucol, col]     *)
(*   udls         sequence of uniform loads [q, off, len, dyn, col]        *)
(*   lls          sequence of line loads [q, off, dyn, col]                *)
(*   water        <<>> or <<depth of the water table below the crest>>     *)
(*   wauto, wH    automatic water factor?, water factor                    *)
(*   lim          <<left, left inner, right inner, right>> search limits   *)
(*   slices, iters, mind, tol, maxit      analysis options                 *)
(*   planes       user planes, sequence of [cx, cy, r]                     *)
(* All numbers are doubles (Real64).  Optional numbers are <<>> or <<x>>.  *)
(*                                                                         *)
(* Arguments of calls are [k |-> "none"], [k |-> "n", v |-> number] or     *)
(* [k |-> "bad"] (something that is not a number).                         *)
(*                                                                         *)
(* A call yields [ok |-> accepted?, m |-> model after the call].           *)
(***************************************************************************)
EXTENDS Real64, Naturals, Sequences, FiniteSets
LOCAL INSTANCE TLC      \* SortSeq

Range(s) == {s[i] : i \in DOMAIN s}
FoldLeft(op(_, _), base, s) ==
  LET f[i \in 0..Len(s)] == IF i = 0 THEN base ELSE op(f[i-1], s[i]) IN f[Len(s)]

Three == R("3")   Four == R("4")    Five == R("5")
MinLength == R("0.001")
Ninety == R("90")
NinetyPercent == R("0.9")
TwoAndHalf == R("2.5")
UwLow == R("1")   UwHigh == R("50")
SlicesLow == R("10")      SlicesHigh == R("500")
ItersLow  == R("500")     ItersHigh  == R("100000")

Palette == << "#efa59c", "#77e1ca", "#cdacfc", "#f2c6a7", "#7edff4",
              "#f2a8c3", "#cde9ba", "#f2c1fa", "#f1dba3", "#a3acf7" >>
\* the colours the drivers use; anything else they use is not a colour
Colours == { "red", "blue", "green", "pink", "purple", "orange", "black", "yellow",
             "#123456", "#abc", "#77e1ca", "#0c84a8" } \cup Range(Palette)

-----------------------------------------------------------------------------
(* arguments *)
NoArg == [k |-> "none"]
Num(x) == [k |-> "n", v |-> x]
Given(a) == a.k # "none"
IsNum(a) == a.k = "n"
Truthy(a) == a.k = "bad" \/ (a.k = "n" /\ a.v # Zero)
IsPos(a)  == IsNum(a) /\ Zero \prec a.v
IsNat(a)  == IsNum(a) /\ Zero \preceq a.v

Fail(m) == [ok |-> FALSE, m |-> m]
Done(m) == [ok |-> TRUE,  m |-> m]

-----------------------------------------------------------------------------
(* geometry: a function of the model (P01) *)
TotH(m) == RMax(RMax(Three \otimes m.h, m.minH), (Five \otimes m.L) \oslash Two)
TotL(m) == RMax(RMax(Five \otimes m.L, m.minL), Four \otimes m.h)
TopX(m) == (TotL(m) \ominus m.L) \oslash Two
TopY(m) == TotH(m)
BotX(m) == TopX(m) \oplus m.L
BotY(m) == TotH(m) \ominus m.h
Grad(m) == m.h \oslash m.L

\* ground surface at x, and the point of the profile at level y
SurfaceY(m, x) ==
  IF x \prec Zero \/ TotL(m) \prec x THEN <<>>
  ELSE IF x \preceq TopX(m) THEN <<TopY(m)>>
  ELSE IF BotX(m) \preceq x THEN <<BotY(m)>>
  ELSE << TopY(m) \ominus ((x \ominus TopX(m)) \otimes Grad(m)) >>
SurfaceX(m, y) ==
  IF y \prec Zero THEN <<>>
  ELSE IF y \prec BotY(m) THEN <<TotL(m)>>
  ELSE IF y \prec TotH(m) THEN << TopX(m) \oplus ((TopY(m) \ominus y) \oslash Grad(m)) >>
  ELSE IF y = TotH(m) THEN <<TopX(m)>>
  ELSE <<>>

\* levels and positions of what is assigned (P02, P03)
MatRL(m, mat)  == TotH(m) \ominus mat.d
WaterRL(m)     == RMax(Zero, TotH(m) \ominus m.water[1])
UdlRight(m, u) == TopX(m) \ominus u.off
UdlLeft(m, u)  == IF u.len = <<>> THEN Zero ELSE RMax(Zero, UdlRight(m, u) \ominus u.len[1])
LlCoord(m, l)  == RMax(Zero, TopX(m) \ominus l.off)

\* width / height the loads and strata need
UdlNeed(u) == (u.off \oplus (IF u.len = <<>> THEN Three ELSE u.len[1])) \otimes TwoAndHalf
LlNeed(l)  == l.off \otimes Three
WidthNeeds(m)  == [i \in 1..Len(m.udls) |-> UdlNeed(m.udls[i])]
                  \o [i \in 1..Len(m.lls) |-> LlNeed(m.lls[i])]
HeightNeeds(m) == [i \in 1..Len(m.mats) |-> m.mats[i].d]

\* cos^2(atan(h / L))
AutoFactor(m) == Sq(m.L) \oslash (Sq(m.L) \oplus Sq(m.h))

\* rebuilding the boundary: the minimum height covers the strata, limits become unrestricted, an automatic factor follows
NoLimits(m) == << Zero, TopX(m), TopX(m), TotL(m) >>
Deepened(m) == [m EXCEPT !.minH = RMaxSeq(<<@>> \o HeightNeeds(m))]
Rebuild(mm) == LET m == Deepened(mm)
               IN  [m EXCEPT !.lim = NoLimits(m), !.wH = IF m.wauto THEN AutoFactor(m) ELSE @]

-----------------------------------------------------------------------------
(* boundary and extents *)
BoundaryOk(a) ==
  /\ IsPos(a.height)
  /\ Given(a.angle) => IsPos(a.angle) /\ a.angle.v \preceq Ninety
  /\ Given(a.length) => IsNat(a.length)
  /\ ~Given(a.length) => Given(a.angle)

FaceLength(a) ==
  RMax(MinLength, IF Given(a.length) THEN a.length.v ELSE a.height.v \oslash RTan(a.angle.v))

SetBoundary(m, a) ==
  IF BoundaryOk(a) THEN Done(Rebuild([m EXCEPT !.h = a.height.v, !.L = FaceLength(a)]))
  ELSE Fail(m)

UpdateBoundary(m, a) ==
  IF \/ Truthy(a.minL) /\ ~IsPos(a.minL)
     \/ Truthy(a.minH) /\ ~IsPos(a.minH)
  THEN Fail(m)
  ELSE Done(Rebuild([m EXCEPT
         !.minH = IF Truthy(a.minH) THEN RMaxSeq(<<a.minH.v>> \o HeightNeeds(m)) ELSE @,
         !.minL = IF Truthy(a.minL) THEN RMaxSeq(<<a.minL.v>> \o WidthNeeds(m)) ELSE @]))
Widen(m, x)    == UpdateBoundary(m, [minL |-> Num(x), minH |-> NoArg]).m
Heighten(m, x) == UpdateBoundary(m, [minL |-> NoArg, minH |-> Num(x)]).m

DefaultOptions ==
  [slices |-> R("25"), iters |-> R("1000"), mind |-> Zero, tol |-> R("0.005"), maxit |-> R("15")]

EmptyModel(h, L) ==
  Rebuild([h |-> h, L |-> L, minH |-> R("6"), minL |-> R("10"),
           mats |-> <<>>, udls |-> <<>>, lls |-> <<>>, water |-> <<>>,
           wauto |-> TRUE, wH |-> One, lim |-> <<>>, planes |-> <<>>,
           slices |-> DefaultOptions.slices, iters |-> DefaultOptions.iters,
           mind |-> DefaultOptions.mind, tol |-> DefaultOptions.tol,
           maxit |-> DefaultOptions.maxit])
\* Slope(height, angle, length); m is returned if the call is refused
NewSlope(m, a) ==
  IF BoundaryOk(a) THEN Done(EmptyModel(a.height.v, FaceLength(a))) ELSE Fail(m)

-----------------------------------------------------------------------------
(* loads *)
LoadColour(col, default) == IF col \in Colours THEN col ELSE default
UdlArgOk(a) == IsNum(a.q) /\ IsNum(a.off) /\ (Truthy(a.len) => IsNum(a.len))
UdlOf(a) == [q |-> RAbs(a.q.v), off |-> RAbs(a.off.v),
             len |-> IF Truthy(a.len) THEN <<RAbs(a.len.v)>> ELSE <<>>,
             dyn |-> a.dyn, col |-> LoadColour(a.col, "red")]
LlArgOk(a) == IsNum(a.q) /\ IsNum(a.off)
LlOf(a) == [q |-> RAbs(a.q.v), off |-> RAbs(a.off.v),
            dyn |-> a.dyn, col |-> LoadColour(a.col, "blue")]

AddUdl(m, u) ==
  IF u.q = Zero THEN m
  ELSE LET m1 == [m EXCEPT !.udls = Append(@, u)]
       IN  IF m1.minL \prec UdlNeed(u) THEN Widen(m1, UdlNeed(u)) ELSE m1
AddLl(m, l) ==
  IF l.q = Zero THEN m
  ELSE LET m1 == [m EXCEPT !.lls = Append(@, l)]
       IN  IF m1.minL \prec LlNeed(l) THEN Widen(m1, LlNeed(l)) ELSE m1

\* items that are not loads of the right kind are ignored
SetUdls(m, a) ==
  Done(FoldLeft(LAMBDA mm, x: IF x.k = "udl" THEN AddUdl(mm, UdlOf(x)) ELSE mm, m, a.items))
SetLls(m, a) ==
  Done(FoldLeft(LAMBDA mm, x: IF x.k = "ll" THEN AddLl(mm, LlOf(x)) ELSE mm, m, a.items))

SameUdl(u, v) == u.q = v.q /\ u.off = v.off /\ u.len = v.len
SameLl(u, v)  == u.q = v.q /\ u.off = v.off
RemoveUdls(m, a) ==
  Done([m EXCEPT !.udls = IF a.all THEN <<>>
          ELSE SelectSeq(@, LAMBDA u: \A i \in 1..Len(a.items): ~SameUdl(u, UdlOf(a.items[i])))])
RemoveLls(m, a) ==
  Done([m EXCEPT !.lls = IF a.all THEN <<>>
          ELSE SelectSeq(@, LAMBDA u: \A i \in 1..Len(a.items): ~SameLl(u, LlOf(a.items[i])))])

-----------------------------------------------------------------------------
(* strata *)
MatArgOk(a) == /\ IsNum(a.uw) /\ UwLow \preceq a.uw.v /\ a.uw.v \preceq UwHigh
               /\ IsNat(a.phi) /\ IsNum(a.c) /\ IsNum(a.d)
MatOf(a) == [uw |-> a.uw.v, phi |-> a.phi.v, c |-> RAbs(a.c.v), d |-> RAbs(a.d.v),
             name |-> a.name, ucol |-> a.col, col |-> ""]

ByDepth(s) == SortSeq(s, LAMBDA x, y: x.d \prec y.d)
UniqueDepths(s) == Cardinality({s[i].d : i \in 1..Len(s)}) = Len(s)
Coloured(s) == [i \in 1..Len(s) |->
   [s[i] EXCEPT !.col = IF s[i].ucol \in Colours THEN s[i].ucol ELSE Palette[((i - 1) % 10) + 1]]]

SetMaterials(m, a) ==
  IF \E i \in 1..Len(a.items): a.items[i].k # "mat" THEN Fail(m)
  ELSE LET all == ByDepth([i \in 1..Len(a.items) |-> MatOf(a.items[i])] \o m.mats)
           deep == all[Len(all)].d
           m1 == IF all # <<>> /\ TotH(m) \prec deep THEN Heighten(m, deep) ELSE m
       IN  IF ~UniqueDepths(all) THEN Fail(m)
           ELSE Done([m1 EXCEPT !.mats = Coloured(all)])

\* a.mat is <<>> or <<material>>, a.depth an argument
RemoveMaterial(m, a) ==
  LET d == IF a.mat # <<>> THEN Num(MatOf(a.mat[1]).d) ELSE a.depth
  IN  Done([m EXCEPT !.mats = IF a.all THEN <<>>
              ELSE IF IsNum(d) THEN SelectSeq(@, LAMBDA x: x.d # d.v) ELSE @])

-----------------------------------------------------------------------------
(* water *)
SetWater(m, a) ==
  IF ~Given(a.depth) THEN Done([m EXCEPT !.water = <<>>])
  ELSE IF IsNat(a.depth) THEN Done([m EXCEPT !.water = <<a.depth.v>>])
  ELSE Fail(m)
RemoveWater(m) == Done([m EXCEPT !.water = <<>>])
WaterOptions(m, a) ==
  IF a.auto THEN Done([m EXCEPT !.wauto = TRUE, !.wH = AutoFactor(m)])
  ELSE IF IsNum(a.H) THEN Done([m EXCEPT !.wauto = FALSE, !.wH = RMax(Zero, RMin(One, a.H.v))])
  ELSE Fail(m)

-----------------------------------------------------------------------------
(* analysis options and limits *)
Clamp(x, lo, hi) == RMax(lo, RMin(hi, x))
AnalysisOptions(m, a) ==
  IF \/ a.slices.k = "bad" \/ a.iters.k = "bad" \/ a.mind.k = "bad" THEN Fail(m)
  ELSE Done([m EXCEPT
     !.slices = IF Given(a.slices)  THEN Clamp(a.slices.v, SlicesLow, SlicesHigh) ELSE @,
     !.iters  = IF Given(a.iters)   THEN Clamp(a.iters.v, ItersLow, ItersHigh) ELSE @,
     !.mind   = IF Given(a.mind)    THEN RMin(a.mind.v, TotL(m) \otimes NinetyPercent) ELSE @,
     !.tol    = IF Given(a.tol)     THEN a.tol.v ELSE @,
     !.maxit  = IF Given(a.maxit)   THEN a.maxit.v ELSE @])

SetLimits(m, a) ==
  LET left   == IF Given(a.left)   THEN RMax(a.left.v, Zero) ELSE m.lim[1]
      lright == RMin(TopX(m), IF Given(a.lright) THEN a.lright.v ELSE m.lim[2])
      rleft  == RMax(TopX(m), IF Given(a.rleft)  THEN a.rleft.v  ELSE m.lim[3])
      right  == RMin(TotL(m), IF Given(a.right)  THEN a.right.v  ELSE m.lim[4])
  IN  IF \/ Given(a.left) /\ ~IsNat(a.left)
         \/ Given(a.lright) /\ ~IsPos(a.lright)
         \/ Given(a.rleft) /\ ~IsPos(a.rleft)
         \/ Given(a.right) /\ ~IsPos(a.right)
      THEN Fail(m)
      ELSE IF lright \preceq left \/ right \preceq rleft THEN Fail(m)
      ELSE Done([m EXCEPT !.lim = <<left, lright, rleft, right>>])
RemoveLimits(m) == Done([m EXCEPT !.lim = NoLimits(m)])

-----------------------------------------------------------------------------
(* circles and the ground surface (P12) *)
Eps  == R("1e-7")
Eps2 == R("1e-10")
Cm   == R("0.01")

\* Points of a circle on a line of the profile; e > 0: a little more than on it, e < 0: a little less.
HorizXs(Y, cx, cy, r, e) ==
  LET disc == Sq(r) \ominus Sq(cy \ominus Y)
      slack == IF e \prec Zero THEN RNeg(Eps2 \otimes Sq(r)) ELSE Eps2 \otimes Sq(r)
  IN  IF (disc \oplus slack) \prec Zero THEN <<>>
      ELSE LET s == RSqrt(RMax(disc, Zero)) IN << cx \ominus s, cx \oplus s >>
FacePts(m, cx, cy, r, e) ==
  LET ax == TopX(m) \ominus cx   ay == TopY(m) \ominus cy
      dx == m.L                  dy == RNeg(m.h)
      dr2 == Sq(dx) \oplus Sq(dy)
      \* a + t d on the circle:  t^2 dr2 + 2 t (a.d) + |a|^2 - r^2 = 0
      D  == (ax \otimes dy) \ominus (ay \otimes dx)
      disc == (Sq(r) \otimes dr2) \ominus Sq(D)
      slack == (IF e \prec Zero THEN RNeg(Eps2) ELSE Eps2) \otimes Sq(r) \otimes dr2
  IN  IF (disc \oplus slack) \prec Zero THEN <<>>
      ELSE LET s == RSqrt(RMax(disc, Zero))
               ad == (ax \otimes dx) \oplus (ay \otimes dy)
               t1 == (RNeg(ad) \ominus s) \oslash dr2
               t2 == (RNeg(ad) \oplus s) \oslash dr2
           IN  << << TopX(m) \oplus (t1 \otimes dx), TopY(m) \oplus (t1 \otimes dy) >>,
                  << TopX(m) \oplus (t2 \otimes dx), TopY(m) \oplus (t2 \otimes dy) >> >>

InRange(x, lo, hi, e) == (lo \ominus e) \preceq x /\ x \preceq (hi \oplus e)

RawCrossings(m, c, e) ==
  LET top == HorizXs(TopY(m), c.cx, c.cy, c.r, e)
      bot == HorizXs(BotY(m), c.cx, c.cy, c.r, e)
      face == FacePts(m, c.cx, c.cy, c.r, e)
      tops == IF top # <<>> /\ InRange(top[1], Zero, TopX(m), e) THEN << <<top[1], TopY(m)>> >> ELSE <<>>
      bots == IF bot # <<>> /\ InRange(bot[2], BotX(m), TotL(m), e) THEN << <<bot[2], BotY(m)>> >> ELSE <<>>
      mids == SelectSeq(face, LAMBDA p: InRange(p[1], TopX(m), BotX(m), e))
  IN  SortSeq(tops \o bots \o mids, LAMBDA p, q: p[1] \prec q[1])

\* points closer than a centimetre to the one before count once
Distinct(s) == LET keep == {i \in 1..Len(s): i = 1 \/ Cm \prec RAbs(s[i][1] \ominus s[i-1][1])}
               IN  SelectSeq([i \in 1..Len(s) |-> <<i, s[i]>>], LAMBDA x: x[1] \in keep)
FirstTwo(s) == LET d == Distinct(s) IN [i \in 1..(IF Len(d) < 2 THEN Len(d) ELSE 2) |-> d[i][2]]

NearTie(s) == \E i \in 2..Len(s): Within(RAbs(s[i][1] \ominus s[i-1][1]), Cm, R("1e-6"))

\* [ok: enters and leaves the ground, pts, amb: a rounding error could decide otherwise]
Crossings(m, c) ==
  LET s == RawCrossings(m, c, Eps)
      t == RawCrossings(m, c, RNeg(Eps))
      a == FirstTwo(s)
      b == FirstTwo(t)
      amb == \/ NearTie(s) \/ NearTie(t) \/ Len(a) # Len(b)
             \/ \E i \in 1..Len(a): ~Within(a[i][1], b[i][1], R("1e-4"))
  IN  [ok |-> Len(a) = 2, pts |-> a, amb |-> amb]

\* circles with centres that an analysis refuses are not planes (positive coordinates)
AddPlane(m, c) ==
  IF Crossings(m, c).ok THEN Done([m EXCEPT !.planes = Append(@, [cx |-> c.cx, cy |-> c.cy, r |-> c.r])])
  ELSE Done(m)
RemovePlanes(m) == Done([m EXCEPT !.planes = <<>>])

\* circles through two points: from nearly upright at the left point to nearly straight
Circle(lc, rc, i, n) ==
  LET dx == rc[1] \ominus lc[1]
      dy == lc[2] \ominus rc[2]
      dist == RSqrt(Sq(dx) \oplus Sq(dy))
      half == dist \oslash Two
      sr == ((half \otimes dist) \oslash dx) \otimes R("1.1")
      edge == ((sr \ominus RSqrt(Sq(sr) \ominus Sq(half))) \otimes RI(n - i)) \oslash RI(n)
      rad == (Sq(half) \oplus Sq(edge)) \oslash (Two \otimes edge)
      toc == rad \ominus edge
  IN  [cx |-> Half(lc[1] \oplus rc[1]) \oplus ((dy \oslash dist) \otimes toc),
       cy |-> Half(lc[2] \oplus rc[2]) \oplus ((dx \oslash dist) \otimes toc),
       r |-> rad]
Fan(lc, rc, n) == [i \in 1..n |-> Circle(lc, rc, i - 1, n)]

AddEntryExit(m, a) ==
  LET l == SurfaceY(m, a.l)  r == SurfaceY(m, a.r)
      fan == Fan(<<a.l, l[1]>>, <<a.r, r[1]>>, a.n)
  IN  IF l = <<>> \/ r = <<>> \/ a.r = a.l THEN Fail(m)
      ELSE Done([m EXCEPT !.planes = @ \o SelectSeq(fan, LAMBDA c: Crossings(m, c).ok)])

-----------------------------------------------------------------------------
(* calls that only look, and the analysis, leave the model as it is *)
Op(m, e) ==
  CASE e.op = "new"        -> NewSlope(m, e)
    [] e.op = "boundary"   -> SetBoundary(m, e)
    [] e.op = "extents"    -> UpdateBoundary(m, e)
    [] e.op = "materials"  -> SetMaterials(m, e)
    [] e.op = "rmmaterial" -> RemoveMaterial(m, e)
    [] e.op = "udls"       -> SetUdls(m, e)
    [] e.op = "rmudls"     -> RemoveUdls(m, e)
    [] e.op = "lls"        -> SetLls(m, e)
    [] e.op = "rmlls"      -> RemoveLls(m, e)
    [] e.op = "water"      -> SetWater(m, e)
    [] e.op = "rmwater"    -> RemoveWater(m)
    [] e.op = "wopts"      -> WaterOptions(m, e)
    [] e.op = "options"    -> AnalysisOptions(m, e)
    [] e.op = "limits"     -> SetLimits(m, e)
    [] e.op = "rmlimits"   -> RemoveLimits(m)
    [] e.op = "plane"      -> AddPlane(m, e)
    [] e.op = "entryexit"  -> AddEntryExit(m, e)
    [] e.op = "rmplanes"   -> RemovePlanes(m)
    [] OTHER               -> Done(m)

Mutators == { "new", "boundary", "extents", "materials", "rmmaterial", "udls", "rmudls", "lls", "rmlls",
              "water", "rmwater", "wopts", "options", "limits", "rmlimits", "plane", "entryexit", "rmplanes" }
\* creating an object alone: does not touch any slope
Creators == { "mkmat", "mkudl", "mkll" }
CreatorOk(e) == CASE e.op = "mkmat" -> MatArgOk(e.item)
                  [] e.op = "mkudl" -> UdlArgOk(e.item)
                  [] e.op = "mkll"  -> LlArgOk(e.item)

-----------------------------------------------------------------------------
(* equal models, up to the order of loads and rounding of derived numbers (P05) *)
CloseSeq(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s): Close(s[i], t[i])
Bag(s) == [x \in Range(s) |-> Cardinality({i \in 1..Len(s): s[i] = x})]
UdlKey(u) == <<u.q, u.off, u.len, u.dyn>>
LlKey(l) == <<l.q, l.off, l.dyn>>
LoadBag(m) == << Bag([i \in 1..Len(m.udls) |-> UdlKey(m.udls[i])]),
                 Bag([i \in 1..Len(m.lls) |-> LlKey(m.lls[i])]) >>
MatKeys(m) == [i \in 1..Len(m.mats) |-> <<m.mats[i].uw, m.mats[i].phi, m.mats[i].c, m.mats[i].d>>]
SamePlanes(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p):
                      Close(p[i].cx, q[i].cx) /\ Close(p[i].cy, q[i].cy) /\ Close(p[i].r, q[i].r)
SameModel(a, b) ==
  /\ a.mats # <<>> \/ b.mats = <<>>
  /\ Close(a.h, b.h) /\ Close(a.L, b.L) /\ Close(a.minH, b.minH) /\ Close(a.minL, b.minL)
  /\ MatKeys(a) = MatKeys(b) /\ LoadBag(a) = LoadBag(b) /\ a.water = b.water
  /\ Close(a.wH, b.wH) /\ CloseSeq(a.lim, b.lim)
  /\ a.slices = b.slices /\ a.iters = b.iters /\ Close(a.mind, b.mind)
  /\ a.tol = b.tol /\ a.maxit = b.maxit /\ SamePlanes(a.planes, b.planes)
=============================================================================
