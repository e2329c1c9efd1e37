------------------------------- MODULE Figure -------------------------------
(***************************************************************************)
(* The figures PySlope draws, as functions of the model and of the planes  *)
(* an analysis reported.  A figure as read back from plotly is described   *)
(* in FigureTrace.tla.                                                     *)
(***************************************************************************)
EXTENDS Core, TLC

Check(k, prop, what, ok) == IF ok THEN TRUE ELSE PrintT("FAIL|" \o ToString(k) \o "|" \o prop \o "|" \o what)

Tol == R("1e-6")
Near(m, a, b) == Within(a, b, Tol \otimes TotL(m))
NearP(m, p, q) == Near(m, p[1], q[1]) /\ Near(m, p[2], q[2])
NearAll(m, s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s): NearP(m, s[i], t[i])

\* the two sequences are the same up to order
SameBag(s, t, same(_, _)) ==
  /\ Len(s) = Len(t)
  /\ \A i \in 1..Len(s): LET a == {j \in 1..Len(s): same(s[i], s[j])}
                              b == {j \in 1..Len(t): same(s[i], t[j])}
                          IN  Cardinality(a) = Cardinality(b)

-----------------------------------------------------------------------------
(* ground *)
Profile(m) == << <<Zero, TopY(m)>>, <<TopX(m), TopY(m)>>, <<BotX(m), BotY(m)>>, <<TotL(m), BotY(m)>> >>
GroundY(m, x) == IF x \preceq TopX(m) THEN TopY(m) ELSE IF BotX(m) \preceq x THEN BotY(m)
                 ELSE TopY(m) \ominus ((x \ominus TopX(m)) \otimes Grad(m))
\* where the level y leaves the ground
EdgeX(m, y) == IF y \prec BotY(m) THEN TotL(m)
               ELSE RMin(BotX(m), TopX(m) \oplus ((TopY(m) \ominus y) \oslash Grad(m)))

\* area of the ground below level y
AreaBelow(m, y) ==
  IF y \preceq BotY(m) THEN y \otimes TotL(m)
  ELSE LET w == EdgeX(m, y)
           up == y \ominus BotY(m)
       IN  (BotY(m) \otimes TotL(m)) \oplus (up \otimes (Half(w \oplus BotX(m))))

Shoelace(p) ==
  LET n == Len(p)
      c == [i \in 1..n |-> LET q == IF i = n THEN p[1] ELSE p[i+1]
                           IN  (p[i][1] \otimes q[2]) \ominus (q[1] \otimes p[i][2])]
  IN  IF n = 0 THEN Zero ELSE Half(RSum(c \o <<>>))

OutlinePts(m) == << <<Zero, Zero>> >> \o Profile(m) \o << <<TotL(m), Zero>> >>
OnOutline(m, p) ==
  LET e == Tol \otimes TotL(m)
      inX == InRange(p[1], Zero, TotL(m), e)
      inY == InRange(p[2], Zero, GroundY(m, RMax(Zero, RMin(TotL(m), p[1]))), e \otimes (One \oplus Grad(m)))
  IN  /\ inX /\ inY
      /\ \/ Within(p[1], Zero, e) \/ Within(p[1], TotL(m), e) \/ Within(p[2], Zero, e)
         \/ Within(p[2], GroundY(m, p[1]), e \otimes (One \oplus Grad(m)))

\* p is in the layer of ground between the levels lo and up
InLayer(m, p, lo, up) ==
  LET e == Tol \otimes TotL(m)
  IN  /\ InRange(p[1], Zero, TotL(m), e) /\ InRange(p[2], lo, up, e)
      /\ p[2] \preceq (GroundY(m, p[1]) \oplus (e \otimes (One \oplus Grad(m))))
Mid(p, q) == <<Half(p[1] \oplus q[1]), Half(p[2] \oplus q[2])>>

Upper(m, i) == IF i = 1 THEN TopY(m) ELSE MatRL(m, m.mats[i-1])
Lower(m, i) == IF i = Len(m.mats) THEN Zero ELSE MatRL(m, m.mats[i])

StratumOk(m, i, p) ==
  LET lo == Lower(m, i)  up == Upper(m, i)  n == Len(p.pts)
      area == AreaBelow(m, up) \ominus AreaBelow(m, lo)
  IN  /\ p.uw = m.mats[i].uw /\ p.c = m.mats[i].c /\ p.phi = m.mats[i].phi /\ p.name = m.mats[i].name
      /\ \A j \in 1..n: /\ InLayer(m, p.pts[j], lo, up)
                        /\ InLayer(m, Mid(p.pts[j], p.pts[IF j = n THEN 1 ELSE j+1]), lo, up)
      /\ Within(RAbs(Shoelace(p.pts)), area, R("1e-6") \otimes AreaBelow(m, TopY(m)))

WaterPts(m) ==
  LET y == WaterRL(m)  x == EdgeX(m, y)
  IN  << <<Zero, y>>, <<x, y>> >> \o
      (IF x \preceq BotX(m) THEN << <<BotX(m), BotY(m)>>, <<TotL(m), BotY(m)>> >> ELSE <<>>)
\* rounding decides whether it goes on along the toe
AtToe(m) == Near(m, WaterRL(m), BotY(m))
\* the line visits the corners in order and nothing else
Follows(m, pts, corners) ==
  LET keep == SelectSeq([i \in 1..Len(pts) |-> <<i, pts[i]>>], LAMBDA t: t[1] = 1 \/ ~NearP(m, pts[t[1]-1], t[2]))
      want == SelectSeq([i \in 1..Len(corners) |-> <<i, corners[i]>>], LAMBDA t: t[1] = 1 \/ ~NearP(m, corners[t[1]-1], t[2]))
  IN  NearAll(m, [i \in 1..Len(keep) |-> keep[i][2]], [i \in 1..Len(want) |-> want[i][2]])

-----------------------------------------------------------------------------
Udls(m) == [i \in 1..Len(m.udls) |-> [x0 |-> UdlLeft(m, m.udls[i]), x1 |-> UdlRight(m, m.udls[i]), col |-> m.udls[i].col, y |-> TopY(m)]]
BoxSame(m, a, b) == Near(m, a.x0, b.x0) /\ Near(m, a.x1, b.x1) /\ a.col = b.col /\ Near(m, a.y, b.y)
Arrows(m) == [i \in 1..Len(m.lls) |-> [x |-> LlCoord(m, m.lls[i]), col |-> m.lls[i].col, y |-> TopY(m)]]
             \o [i \in 1..Len(m.udls) |-> [x |-> UdlLeft(m, m.udls[i]), col |-> m.udls[i].col, y |-> TopY(m)]]
             \o [i \in 1..Len(m.udls) |-> [x |-> UdlRight(m, m.udls[i]), col |-> m.udls[i].col, y |-> TopY(m)]]
ArrowSame(m, a, b) == Near(m, a.x, b.x) /\ a.col = b.col /\ Near(m, a.y, b.y)
\* every load has its arrows; others are at most shadows (black) of these
ArrowsOk(m, shown) ==
  LET want == Arrows(m) IN
  /\ \A i \in 1..Len(want): \E j \in 1..Len(shown): ArrowSame(m, want[i], shown[j])
  /\ \A j \in 1..Len(shown): \E i \in 1..Len(want):
       ArrowSame(m, want[i], [shown[j] EXCEPT !.col = IF @ = "black" THEN want[i].col ELSE @])
Labels(m) == [i \in 1..Len(m.lls) |-> [x |-> LlCoord(m, m.lls[i]), y |-> TopY(m), unit |-> "kN/m", v |-> m.lls[i].q]]
             \o [i \in 1..Len(m.udls) |-> [x |-> Half(UdlLeft(m, m.udls[i]) \oplus UdlRight(m, m.udls[i])), y |-> TopY(m), unit |-> "kPa", v |-> m.udls[i].q]]
LabelSame(m, a, b) == Near(m, a.x, b.x) /\ Near(m, a.y, b.y) /\ a.unit = b.unit /\ Within(a.v, b.v, R("0.001"))

\* markers: outer limits always, inner ones if they differ
Split(m) == m.lim[2] # m.lim[3]
At(m, x) == <<x, GroundY(m, x)>>
Opens(m) == << At(m, m.lim[1]) >> \o (IF Split(m) THEN << At(m, m.lim[3]) >> ELSE <<>>)
Closes(m) == << At(m, m.lim[4]) >> \o (IF Split(m) THEN << At(m, m.lim[2]) >> ELSE <<>>)

\* everything a boundary plot has to show; prop is reported
Boundary(k, job, m) ==
  LET f == job.fig
      C(what, ok) == Check(k, "P22", what, ok)
      pts(s, t) == SameBag(s, t, LAMBDA p, q: NearP(m, p, q))
  IN  /\ C("outline of the model", /\ \A i \in 1..6: \E j \in 1..Len(f.outline): NearP(m, OutlinePts(m)[i], f.outline[j])
                                   /\ \A j \in 1..Len(f.outline): OnOutline(m, f.outline[j])
                                   /\ Close(RAbs(Shoelace(f.outline)), AreaBelow(m, TopY(m))))
      /\ IF m.mats = <<>> THEN C("a model without strata is shown as its outline", f.strata = <<>>)
         ELSE
         /\ C("one polygon per stratum", Len(f.strata) = Len(m.mats))
         /\ C("strata lie between their levels and tile the ground",
              Len(f.strata) = Len(m.mats) => \A i \in 1..Len(m.mats): StratumOk(m, i, f.strata[i]))
         /\ C("strata have the colour of their stratum",
              Len(f.strata) = Len(m.mats) => \A i \in 1..Len(m.mats): f.strata[i].col = m.mats[i].col)
         /\ C("uniform loads at their strip", SameBag(f.boxes, Udls(m), LAMBDA a, b: BoxSame(m, a, b)))
         /\ C("arrows at the loads", ArrowsOk(m, f.arrows))
         /\ C("labels at the loads", SameBag(f.labels, Labels(m), LAMBDA a, b: Near(m, a.x, b.x) /\ Near(m, a.y, b.y) /\ a.unit = b.unit))
         /\ IF m.water = <<>> \/ WaterRL(m) = Zero
            THEN C("no water line without water", f.water = <<>> /\ f.levels = <<>>)
            ELSE /\ C("water line at the level of the water table",
                      Len(f.water) = 1 /\ \/ Follows(m, f.water[1], WaterPts(m))
                                          \/ AtToe(m) /\ Follows(m, f.water[1], SubSeq(WaterPts(m), 1, 2)))
                 /\ C("water mark at the level of the water table", Len(f.levels) = 1 /\ Near(m, f.levels[1], WaterRL(m)))
         /\ C("limit markers at the limits in force",
              /\ pts(f.opens, Opens(m)) /\ pts(f.closes, Closes(m)) /\ pts(f.bars, Opens(m) \o Closes(m)))

-----------------------------------------------------------------------------
(* notes: the table of strata, the labels, the legend *)
Asked(said, default) == \/ said = "yes"
                        \/ said = "default" /\ default
HasTable(job) == Asked(job.table, TRUE)
HasLegend(job) == Asked(job.legend, job.kind = "all")
SameStratum(a, b) == a.name = b.name /\ a.uw = b.uw /\ a.c = b.c /\ a.phi = b.phi
Hair == R("1e-6")
\* the filled patches at row t in the column between its first two entries
PatchesOf(f, t) == {i \in 1..Len(f.patches):
                      LET p == f.patches[i] IN /\ p.y0 \prec t.y /\ t.y \prec p.y1
                                               /\ f.heads[2].x \preceq (p.x0 \oplus Hair) /\ p.x1 \preceq (f.heads[3].x \oplus Hair)}
\* the legend: a swatch for every tenth from 0 to 5, one below the other
LegendOk(f) ==
  LET s == f.swatches  n == Len(s)
      d == s[1].y1 \ominus s[1].y0
      unit == d \otimes R("10")
  IN  /\ n = 51 /\ f.title
      /\ \A i \in 1..n: Within(s[i].y1 \ominus s[i].y0, d, Hair)
      /\ \A i \in 2..n: Within(s[i].y1, s[i-1].y0, Hair)
      /\ Cardinality({s[i].col : i \in 1..n}) = n
      /\ Len(f.marks) = 6
      /\ \A v \in 0..5: \E i \in 1..6:
           /\ f.marks[i].v = RI(v)
           /\ RAbs(f.marks[i].y \ominus s[10*v + 1].y1) \prec (Half(unit))
Notes(k, job, m) ==
  LET f == job.fig
      C(what, ok) == Check(k, "P29", what, ok)
      nothing == f.swatches = <<>> /\ f.marks = <<>> /\ ~f.title
  IN  IF m.mats = <<>> THEN C("a model without strata has no notes", f.table = <<>> /\ f.heads = <<>> /\ f.labels = <<>> /\ nothing)
      ELSE
      /\ IF ~HasTable(job) THEN C("no table of strata unless asked for", f.table = <<>> /\ f.heads = <<>>)
         ELSE /\ C("the columns of the table", [i \in 1..Len(f.heads) |-> f.heads[i].what] = <<"name", "col", "uw", "c", "phi">>)
              /\ C("the table lists the strata from top to bottom",
                   /\ Len(f.table) = Len(m.mats)
                   /\ \A i \in 1..Len(m.mats): SameStratum(f.table[i], m.mats[i]))
              /\ C("entries are below the heads of their columns",
                   Len(f.heads) = 5 => \A i \in 1..Len(f.table):
                     /\ Len(f.table[i].x) = 4
                     /\ \A j \in 1..4: Within(f.table[i].x[j], f.heads[IF j = 1 THEN 1 ELSE j+1].x, Hair))
              /\ C("the table shows the colours of the strata",
                   (Len(f.heads) = 5 /\ Len(f.table) = Len(m.mats)) => \A i \in 1..Len(m.mats):
                     LET c == PatchesOf(f, f.table[i]) IN Cardinality(c) = 1 /\ \A j \in c: f.patches[j].col = m.mats[i].col)
      /\ C("strata are labelled with their properties",
           /\ Len(f.strata) = Len(m.mats)
           /\ \A i \in 1..Len(m.mats): SameStratum(f.strata[i].hover, m.mats[i]))
      /\ C("loads are labelled with their magnitude", SameBag(f.labels, Labels(m), LAMBDA a, b: LabelSame(m, a, b)))
      /\ IF HasLegend(job) THEN C("the legend shows and numbers the colours from 0 to 5", LegendOk(f))
         ELSE C("no legend unless asked for", nothing)

-----------------------------------------------------------------------------
(* planes *)
Mm == R("0.003")
\* the path pts runs along the circle of plane p from its entry to its exit
Along(pts, p) ==
  LET n == Len(pts)
      tol == Mm \oplus (R("0.002") \otimes p.r)
      off(q) == RAbs(RSqrt(Sq(q[1] \ominus p.cx) \oplus Sq(q[2] \ominus p.cy)) \ominus p.r)
      drop1 == p.cy \prec (p.ly \oplus Mm)        \* entry above the centre: the path drops to the lower half
      drop2 == p.cy \prec (p.ry \oplus Mm)
  IN  /\ n >= 2
      /\ Within(pts[1][1], p.lx, Mm) /\ Within(pts[1][2], p.ly, Mm)
      /\ Within(pts[n][1], p.rx, Mm) /\ Within(pts[n][2], p.ry, Mm)
      /\ \A i \in 2..(n-1): off(pts[i]) \preceq Mm /\ pts[i][2] \preceq (p.cy \oplus Mm)
      /\ \A i \in 2..n: (pts[i-1][1] \ominus Mm) \preceq pts[i][1]
      /\ \A i \in 2..n:
           IF (i = 2 /\ drop1) \/ (i = n /\ drop2)
           THEN (pts[i][1] \ominus pts[i-1][1]) \preceq (Mm \oplus (R("0.1") \otimes p.r))
           ELSE off(Mid(pts[i-1], pts[i])) \preceq tol

\* colours: by the factor of safety to one decimal, 5 and above alike; e: how far rounding may reach
Tenth(f) == RFloor((RMin(f, Five) \otimes R("10")) \oplus R("0.5"))
ColourOk(legend, f, e, col) ==
  \E k \in {Tenth(RMax(Zero, f \ominus e)), Tenth(f \oplus e)}:
     k + 1 <= Len(legend) /\ legend[k + 1] = col

Shown(job, i) == job.maxplot.k = "none" \/ job.rep[i].fos \prec job.maxplot.v

Critical(k, job, m) ==
  LET f == job.fig  p == job.rep[1]
      C(what, ok) == Check(k, "P23", what, ok)
  IN  /\ C("one critical plane", Len(f.lines) = 1 /\ Len(f.centres) = 1)
      /\ IF Len(f.lines) # 1 \/ Len(f.centres) # 1 THEN TRUE ELSE
         LET l == f.lines[1].pts  n == Len(l)  c == f.centres[1] IN
         /\ C("the critical plane runs along its circle from entry to exit", n >= 4 /\ Along(SubSeq(l, 1, n - 2), p))
         /\ C("the centre is joined to the end points",
              /\ n >= 4
              /\ Within(l[n-1][1], p.cx, Mm) /\ Within(l[n-1][2], p.cy, Mm)
              /\ Within(l[n][1], p.lx, Mm) /\ Within(l[n][2], p.ly, Mm))
         /\ C("centre, radius and factor of safety of the critical plane",
              /\ Within(c.x, p.cx, Mm) /\ Within(c.y, p.cy, Mm)
              /\ Within(c.cx, p.cx, R("0.00101")) /\ Within(c.cy, p.cy, R("0.00101")) /\ Within(c.r, p.r, R("0.00101"))
              /\ Within(c.fos, p.fos, R("0.00051")) /\ Within(c.text, p.fos, R("0.00051")))
         /\ C("colour of the critical plane", ColourOk(job.fig.legend, p.fos, R("0.00051"), f.lines[1].col))

\* planes a..b of the figure
Planes(k, job, a, b) ==
  LET f == job.fig
      C(what, ok) == Check(k, "P23", what, ok)
  IN  \A i \in a..b: LET t == f.planes[i]  p == job.rep[t.who] IN
        /\ C("a plane runs along its circle from entry to exit", Along(t.pts, p))
        /\ C("a plane is labelled with its factor of safety", Within(t.fos, p.fos, R("0.00051")))
        /\ C("colour of a plane", ColourOk(job.fig.legend, p.fos, R("1e-9"), t.col))
All(k, job) ==
  LET f == job.fig
      shown == {i \in 1..Len(job.rep): Shown(job, i)}
      C(what, ok) == Check(k, "P23", what, ok)
  IN  C("exactly the planes below the given factor of safety",
        /\ Len(f.planes) = Cardinality(shown)
        /\ {f.planes[i].who : i \in 1..Len(f.planes)} = shown)
      \* what is drawn later lies above
      /\ C("the lower a plane's factor of safety, the later it is drawn",
           \A i \in 2..Len(f.drawn): job.rep[f.drawn[i]].fos \preceq job.rep[f.drawn[i-1]].fos)
=============================================================================
