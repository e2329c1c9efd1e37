------------------------------- MODULE Bishop -------------------------------
(***************************************************************************)
(* Factor of safety of one slip circle (P16, P17, P18).                    *)
(*                                                                         *)
(* The mass between circle and ground, from end point l to end point r, is *)
(* cut into m.slices vertical slices of equal width b.  Per slice:         *)
(*   x         middle                                                      *)
(*   yb, yt    circle and ground there                                     *)
(*   s, c      sine and cosine of the inclination of the base              *)
(*   w         weight: strata, uniform loads, line loads                   *)
(*   u         pore pressure times width                                   *)
(*   co, t     cohesion and tangent of friction angle at the base          *)
(* Bishop's simplified method asks for F with                              *)
(*   F  =  Sum (co b + (w - u) t) / (c + s t / F)   /   Sum w s            *)
(***************************************************************************)
EXTENDS Core

Gamma == R("9.81")
Tie == R("1e-9")
Force(s) == s \o <<>>                \* evaluates all elements of a sequence

\* ground level at x inside the model
Ground(m, x) ==
  IF x \preceq TopX(m) THEN TopY(m)
  ELSE IF BotX(m) \preceq x THEN BotY(m)
  ELSE TopY(m) \ominus ((x \ominus TopX(m)) \otimes Grad(m))

Overlap(a1, a2, b1, b2) == RMax(Zero, RMin(a2, b2) \ominus RMax(a1, b1))

\* what does not depend on the circle
Env(m) ==
  LET n == Len(m.mats) IN
  [ n   |-> n,
    rl  |-> Force([i \in 1..n |-> MatRL(m, m.mats[i])]),
    tan |-> Force([i \in 1..n |-> RTan(m.mats[i].phi)]),
    ul  |-> Force([i \in 1..Len(m.udls) |-> UdlLeft(m, m.udls[i])]),
    ur  |-> Force([i \in 1..Len(m.udls) |-> UdlRight(m, m.udls[i])]),
    lx  |-> Force([i \in 1..Len(m.lls) |-> LlCoord(m, m.lls[i])]),
    \* a water table at the base of the model is no water
    wet |-> m.water # <<>> /\ WaterRL(m) # Zero,
    wrl |-> IF m.water = <<>> THEN Zero ELSE WaterRL(m),
    wx  |-> IF m.water = <<>> THEN Zero ELSE SurfaceX(m, WaterRL(m))[1],
    topx |-> TopX(m), topy |-> TopY(m), botx |-> BotX(m), boty |-> BotY(m), grad |-> Grad(m) ]

GroundE(v, x) == IF x \preceq v.topx THEN v.topy
                 ELSE IF v.botx \preceq x THEN v.boty
                 ELSE v.topy \ominus ((x \ominus v.topx) \otimes v.grad)

\* stratum at level y: the first one whose bottom is below y, else the last
StratumAt(m, v, y) ==
  LET f[i \in 1..v.n] == IF i = v.n \/ v.rl[i] \prec y THEN i ELSE f[i+1] IN f[1]

SoilWeight(m, v, yt, yb) ==
  RSum([i \in 1..v.n |->
     m.mats[i].uw \otimes
       (IF i = v.n
        THEN RMax(Zero, RMin(yt, IF i = 1 THEN yt ELSE v.rl[i-1]) \ominus yb)
        ELSE Overlap(yb, yt, v.rl[i], IF i = 1 THEN v.topy ELSE v.rl[i-1]))])

Slice(m, v, p, l, b, i) ==
  LET x  == l \oplus (b \otimes (RI(i) \ominus R("0.5")))
      dx == p.cx \ominus x
      dy == RSqrt(RMax(Zero, Sq(p.r) \ominus Sq(dx)))
      yb == p.cy \ominus dy
      yt == RMax(GroundE(v, x), yb)
      xl == x \ominus Half(b)
      xr == x \oplus Half(b)
      k  == StratumAt(m, v, yb)
      w  == (SoilWeight(m, v, yt, yb) \otimes b)
            \oplus RSum([j \in 1..Len(m.udls) |-> m.udls[j].q \otimes Overlap(xl, xr, v.ul[j], v.ur[j])])
            \oplus RSum([j \in 1..Len(m.lls) |-> IF xl \preceq v.lx[j] /\ v.lx[j] \prec xr THEN m.lls[j].q ELSE Zero])
      head == RMax(Zero, RMin(v.wrl, yt) \ominus yb)
      u  == IF ~v.wet THEN Zero
            ELSE (head \otimes Gamma \otimes b)
                 \otimes (IF v.wx \prec x /\ x \prec v.botx THEN m.wH ELSE One)
  IN  [ x |-> x, yb |-> yb, yt |-> yt, s |-> dx \oslash p.r, c |-> dy \oslash p.r, w |-> w, u |-> u,
        co |-> m.mats[k].c, t |-> v.tan[k],
        \* rounding could decide otherwise
        tie |-> \/ \E j \in 1..(v.n - 1): Within(v.rl[j], yb, Tie)
                \/ v.wet /\ (Within(x, v.wx, Tie) \/ (Within(x, v.botx, Tie) /\ m.wH # One)) ]

Slices(m, v, p, l, r) ==
  LET n == RFloor(m.slices)
      b == (r \ominus l) \oslash m.slices
  IN  Force([i \in 1..n |-> Slice(m, v, p, l, b, i)])

\* moments about the centre, over the radius
Driving(S)   == RSum([i \in 1..Len(S) |-> S[i].w \otimes S[i].s])
Weight(S)    == RSum([i \in 1..Len(S) |-> S[i].w])
Resisting(S, b, F) ==
  RSum([i \in 1..Len(S) |->
    ((S[i].co \otimes b) \oplus ((S[i].w \ominus S[i].u) \otimes S[i].t))
      \oslash (S[i].c \oplus ((S[i].s \otimes S[i].t) \oslash F))])
\* the ordinary method of slices, where the iteration starts
Ordinary(S, b) ==
  RSum([i \in 1..Len(S) |->
    ((S[i].co \otimes b) \oslash S[i].c)
      \oplus (RMax(Zero, (S[i].w \otimes S[i].c) \ominus (S[i].u \oslash S[i].c)) \otimes S[i].t)])
    \oslash Driving(S)

\* fixed point iteration: <<>> if resistance turns negative
Iterate(m, S, b, F0) ==
  LET drive == Driving(S)
      go[k \in 0..RFloor(m.maxit)] ==
        \* [f: value, done]
        IF k = 0 THEN [f |-> <<F0>>, done |-> FALSE]
        ELSE LET q == go[k-1] IN
             IF q.done THEN q
             ELSE LET res == Resisting(S, b, q.f[1])
                      f == res \oslash drive
                  IN  IF res \prec Zero THEN [f |-> <<>>, done |-> TRUE]
                      ELSE [f |-> <<f>>, done |-> RAbs(f \ominus q.f[1]) \prec m.tol]
  IN  go[RFloor(m.maxit)].f

\* does rounding decide after how many steps the iteration ends, or a base nearly carry no normal force?
Touchy(m, S, b, F0) ==
  LET drive == Driving(S)
      thin(F) == \E i \in 1..Len(S): RAbs(S[i].c \oplus ((S[i].s \otimes S[i].t) \oslash F)) \prec R("1e-4")
      go[k \in 0..RFloor(m.maxit)] ==
        IF k = 0 THEN [f |-> F0, done |-> thin(F0), tie |-> thin(F0)]
        ELSE LET q == go[k-1] IN
             IF q.done THEN q
             ELSE LET f == Resisting(S, b, q.f) \oslash drive
                      d == RAbs(f \ominus q.f)
                      t == Within(d, m.tol, R("1e-10") \otimes (One \oplus RAbs(f))) \/ f \preceq Zero \/ thin(f)
                  IN  [f |-> f, done |-> t \/ d \prec m.tol, tie |-> t]
  IN  go[RFloor(m.maxit)].tie

(* What an analysis may report for circle p with end points l < r:          *)
(*   FosOk(.., <<F>>) / FosOk(.., <<>>): F / nothing is right               *)
(*   [ok, amb]: amb if rounding decides                                     *)
FosOfSlices(m, S, p, l, r, f) ==
  LET b == (r \ominus l) \oslash m.slices
      drive == Driving(S)
      close == R("1e-9") \otimes Weight(S)
      tie == (\E i \in 1..Len(S): S[i].tie) \/ RAbs(drive) \preceq close
      narrow == (r \ominus l) \preceq R("1e-6")
      ord == Ordinary(S, b)
      \* F is what the iteration from the ordinary method gives - where rounding
      \* decides how many steps that takes, any solution within the tolerance
      it == Iterate(m, S, b, ord)
      solved(F) ==
        \/ it # <<>> /\ Within(F, it[1], R("1e-6") \otimes (One \oplus RAbs(F)))
        \/ /\ Zero \prec F
           /\ LET g == Resisting(S, b, F) \oslash drive
              IN  RAbs(g \ominus F) \preceq (m.tol \oplus (R("1e-9") \otimes (One \oplus F)))
           /\ Touchy(m, S, b, ord)
  IN  [ amb |-> tie,
        ok |-> IF f = <<>>
               THEN narrow \/ drive \preceq Zero \/ (ord # Zero /\ it = <<>>)
               ELSE /\ Zero \prec drive
                    /\ IF ord = Zero THEN f[1] = Zero ELSE solved(f[1]) ]

(* A line load where two slices meet belongs to either of them - but to one: *)
(* the load is moved a little to the left or to the right.                   *)
Moved(v, T, right) ==
  [v EXCEPT !.lx = [j \in DOMAIN @ |-> IF j \notin T THEN @[j]
                                      ELSE IF j \in right THEN @[j] \oplus (Two \otimes Tie)
                                      ELSE @[j] \ominus (Two \otimes Tie)]]
FosOk(m, v, p, l, r, f) ==
  IF m.mats = <<>> THEN [ok |-> f = <<>>, amb |-> FALSE]
  ELSE
  LET \* line loads where slices meet; at the very ends the load may be on the mass or not
      n == RFloor(m.slices)
      e == Force([i \in 1..(n + 1) |-> l \oplus (((r \ominus l) \otimes RI(i - 1)) \oslash m.slices)])
      T == {j \in 1..Len(m.lls): \E i \in 1..(n + 1): Within(e[i], v.lx[j], Tie)}
      ends == \E j \in T: Within(l, v.lx[j], Tie) \/ Within(r, v.lx[j], Tie)
      c(right) == FosOfSlices(m, Slices(m, Moved(v, T, right), p, l, r), p, l, r, f)
  IN  IF T = {} THEN FosOfSlices(m, Slices(m, v, p, l, r), p, l, r, f)
      ELSE IF ends \/ Cardinality(T) > 3 THEN [ok |-> FALSE, amb |-> TRUE]
      ELSE [ amb |-> \E q \in SUBSET T: c(q).amb, ok |-> \E q \in SUBSET T: c(q).ok ]
=============================================================================
