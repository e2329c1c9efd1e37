------------------------------ MODULE PageTrace -----------------------------
(***************************************************************************)
(* Judges what pages of the web application showed in a browser            *)
(* (P26, P27, P28).                                                        *)
(*                                                                         *)
(* PAGES: pages as served                                                  *)
(*   rows, set  the values served                                          *)
(*   fos        factors of safety of the planes stored for the page        *)
(*   nb         number of traces of the plot without planes                *)
(*   notes      number of its annotations and shapes                       *)
(*   soils      its strata: name, colour, unit weight, cohesion, friction  *)
(*   legend     [key, colour] of the factors of safety                     *)
(*   lines      lines seen on the page, [k: plane, hover, colour]          *)
(*   charts     charts seen on the page: numbers of its traces, plot       *)
(*              traces as 1..nb, then nb + number of the line              *)
(* POSTS: what the form would submit: rows, set, total, extra              *)
(* LOOKS: what else the page shows: analyse, pdf, dead, hidden, rowsHidden,*)
(*   labels, menus, soils, scale, ends, width, notes, busy                  *)
(* PLAYS: [page, w, steps], steps [e, post, look, chart, fail, submits,    *)
(*   complete: the browser itself would send the form],                    *)
(*   the first one the page as it opened                                   *)
(***************************************************************************)
EXTENDS Core, TLC, Json, IOUtils

P == INSTANCE Page WITH page <- 0, last <- 0, MaxRows <- 0

Pages == JsonDeserialize(IOEnv.PAGES)
Posts == ndJsonDeserialize(IOEnv.POSTS)
Looks == ndJsonDeserialize(IOEnv.LOOKS)
Plays == ndJsonDeserialize(IOEnv.PLAYS)
VARIABLES at, state, where

Say(k, i, prop, what) == PrintT("FAIL|" \o ToString(k) \o "|" \o ToString(i) \o "|" \o prop \o "|" \o what)
Ok(k, i, prop, what, ok) == IF ok THEN TRUE ELSE Say(k, i, prop, what)

OpenPage(g, w) ==
  [rows |-> [x \in DOMAIN g.rows |-> [i \in 1..Len(g.rows[x]) |-> [v |-> g.rows[x][i], t |-> g.rows[x][i]]]],
   set |-> g.set, changed |-> "no", moving |-> "", was |-> {g.set[P!Slider]}, w |-> w, busy |-> "no"]

-----------------------------------------------------------------------------
HalfTenth == R("0.0500001")
HalfThousandth == R("0.00050001")
\* the colour of a factor of safety: that of the nearest tenth, the last one for all above
ColourOk(g, x, c) ==
  LET top == g.legend[Len(g.legend)][1]
  IN  \E i \in 1..Len(g.legend): g.legend[i][2] = c /\ Within(g.legend[i][1], RMin(x, top), HalfTenth)
LineOk(g, l) == l.k >= 1 => ColourOk(g, g.fos[l.k], l.colour) /\ Within(l.hover, g.fos[l.k], HalfThousandth)

\* the plot, then the planes below the limit, the most critical last
ChartOk(g, c, limit) ==
  LET x == R(limit)
      n == Len(c)
      want == Cardinality({i \in 1..Len(g.fos): g.fos[i] \prec x})
      Plane(i) == g.lines[c[i] - g.nb].k
  IN  /\ n = g.nb + want
      /\ \A i \in 1..g.nb: c[i] = i
      /\ \A i \in (g.nb + 1)..n:
           /\ c[i] > g.nb
           /\ Plane(i) >= 1
           /\ g.fos[Plane(i)] \prec x
           /\ i > g.nb + 1 => g.fos[Plane(i)] \preceq g.fos[Plane(i - 1)]
      /\ Cardinality({Plane(i): i \in (g.nb + 1)..n}) = want

FitsWindow(width, w) == width <= w /\ 10 * width >= 9 * w

PdfOk(s, o) ==
  CASE s.changed = "yes" -> o.pdf = "" /\ o.dead
    [] s.changed = "no" -> o.pdf \in P!Limits(s) /\ ~o.dead
    [] OTHER -> (o.pdf \in P!Limits(s) /\ ~o.dead) \/ (o.pdf = "" /\ o.dead)

\* s: state after the step, pre: state before
Judge(k, i, st, pre, s, g) ==
  LET p == Posts[st.post]  o == Looks[st.look]
      rowStep == i = 1 \/ st.e.op \in {"add", "del", "row"}
      narrow == s.w < P!Narrow
  IN
  /\ Ok(k, i, IF rowStep THEN "P26" ELSE "P28", "the control is there and works", st.fail = "")
  /\ Ok(k, i, "P26", "changing the form does not submit it", st.e.op = "ask" \/ st.submits = 0)
  /\ Ok(k, i, "P28", "the analysis is asked for once by its button and by nothing else",
          st.e.op = "ask" => ((st.submits = (IF P!Submits(pre, st.e) /\ st.complete THEN 1 ELSE 0))
                              \/ (pre.changed = "open" /\ st.e.what = "analysis" /\ st.submits <= 1)))
  /\ Ok(k, i, "P28", "the page is busy after the user asked for something, not before", (s.busy = "yes" => o.busy) /\ (s.busy = "no" => ~o.busy))
  /\ \A x \in DOMAIN s.rows:
       /\ Ok(k, i, "P26", "the number of rows submitted is the number of rows shown", p.total[x] = ToString(Len(s.rows[x])) /\ p.shown[x] = Len(s.rows[x]))
       /\ Ok(k, i, "P26", "the rows submitted are the rows in their order with their values", p.rows[x] = [j \in 1..Len(s.rows[x]) |-> s.rows[x][j].v])
  /\ Ok(k, i, "P26", "nothing else is submitted", p.extra = <<>>)
  /\ Ok(k, i, "P26", "fields outside of the rows are submitted with their values", \A f \in DOMAIN s.set: f \in DOMAIN p.set /\ p.set[f] = s.set[f])
  /\ Ok(k, i, "P28", "a new analysis is possible exactly after a change", (s.changed = "yes" => o.analyse) /\ (s.changed = "no" => ~o.analyse))
  /\ Ok(k, i, "P28", "the report is that of the page, with the planes shown, and there is none after a change", PdfOk(s, o))
  /\ Ok(k, i, "P28", "exactly the fields that matter are shown", {o.hidden[j] : j \in 1..Len(o.hidden)} = P!Shows(s) /\ o.rowsHidden = 0)
  /\ Ok(k, i, "P28", "sliders are labelled with their values", \A f \in DOMAIN o.labels: o.labels[f] = s.set[f])
  /\ Ok(k, i, "P27", "the chart fits the window", FitsWindow(o.width, s.w))
  /\ Ok(k, i, "P27", "a narrow window has the tables instead of the notes of the plot, a wide one the notes",
          IF narrow THEN o.menus /\ o.notes = 0 ELSE ~o.menus /\ o.notes = g.notes)
  /\ Ok(k, i, "P27", "in a narrow window the strata of the model are listed with their colours", narrow => o.soils = g.soils)
  /\ Ok(k, i, "P27", "in a narrow window the colours of the factors of safety are listed in order",
          narrow => o.scale = [j \in 1..Len(g.legend) |-> g.legend[j][2]] /\ o.ends = g.ends)
  /\ Ok(k, i, "P27", "the chart shows the plot and exactly the planes below the limit, the most critical on top",
          st.chart >= 1 /\ \E v \in P!Limits(s): ChartOk(g, g.charts[st.chart], v))
  /\ Ok(k, i, "P27", "planes have the colour and the label of their factor of safety",
          st.chart >= 1 => \A j \in (g.nb + 1)..Len(g.charts[st.chart]):
             g.charts[st.chart][j] > g.nb => LineOk(g, g.lines[g.charts[st.chart][j] - g.nb]))

Init == /\ at \in 1..Len(Plays)
        /\ state = <<>>
        /\ where = 0
Next == LET play == Plays[at]
            g == Pages[play.page]
            i == where + 1
        IN  /\ i <= Len(play.steps)
            /\ LET st == play.steps[i]
                   s == IF i = 1 THEN OpenPage(g, play.w) ELSE P!Step(state[1], st.e)
               IN  /\ Ok(at, i, "MACHINERY", "an action that is not possible", IF i = 1 THEN TRUE ELSE P!Can(state[1], st.e))
                   /\ Judge(at, i, st, IF i = 1 THEN s ELSE state[1], s, g)
                   /\ state' = <<s>>
            /\ where' = i
            /\ at' = at
Spec == Init /\ [][Next]_<<at, state, where>>
=============================================================================
