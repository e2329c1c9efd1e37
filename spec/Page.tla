-------------------------------- MODULE Page --------------------------------
(***************************************************************************)
(* A page of the web application in a browser (P26, P27, P28).             *)
(*                                                                         *)
(* State of a page s:                                                      *)
(*   rows     kind -> sequence of rows; a row is [v, t]: the values of its *)
(*            fields, and the values the row started with                  *)
(*   set      name -> value of the other fields                            *)
(*   changed  has the user changed anything but the slider since the page  *)
(*            was served: "no", "yes", or "open" where it is left open     *)
(*   moving   the slider is being dragged                                  *)
(*   was      values of the slider since it was let go                     *)
(*   w        width of the window                                          *)
(*   busy     is the busy indicator shown: "no", "yes", "open"             *)
(*                                                                         *)
(* Actions of the user are records                                         *)
(*   add  kind          press "add another row"                            *)
(*   del  kind i        press the delete button of row i                   *)
(*   row  kind i f v    give field number f of row i the value v           *)
(*   set  f v           give another field the value v                     *)
(*   drag f v           move a slider to v without letting go              *)
(*   drop f             let go                                             *)
(*   size w             resize the window                                  *)
(*   click at           click on something that is no control              *)
(*   ask  what          press the button for an analysis, a report, a reset*)
(*                                                                         *)
(* Values are strings; Off is a checkbox that is not ticked.               *)
(* PageTrace.tla judges recorded pages with the same operators.            *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Off == "~"
Slider == "options-max_display_FOS"
Narrow == 900

Without(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Touch(s) == [s EXCEPT !.changed = "yes"]
Maybe(s) == [s EXCEPT !.changed = IF @ = "no" THEN "open" ELSE @]

Can(s, e) ==
  CASE e.op \in {"del", "row"} -> e.i <= Len(s.rows[e.kind])
    [] e.op = "drag" -> s.moving \in {"", e.f}
    [] e.op = "drop" -> s.moving = e.f
    [] OTHER -> s.moving = "" \/ e.op = "size"

Submits(s, e) == e.op = "ask" /\ e.what = "analysis" /\ s.changed = "yes"
\* a button that is disabled does nothing
Step(s0, e) ==
  LET s == [s0 EXCEPT !.busy = IF @ = "no" THEN "no" ELSE "open"] IN
  CASE e.op = "click" -> s
    [] e.op = "ask" -> IF e.what = "reset" \/ (e.what = "analysis" /\ s.changed = "yes") \/ (e.what = "pdf" /\ s.changed = "no")
                       THEN [s EXCEPT !.busy = "yes"]
                       ELSE IF e.what = "analysis" /\ s.changed = "no" THEN s
                       ELSE [s EXCEPT !.busy = "open"]
    [] e.op = "add" -> LET t == s.rows[e.kind][1].t
                       IN  Touch([s EXCEPT !.rows[e.kind] = Append(@, [v |-> t, t |-> t])])
    [] e.op = "del" -> IF Len(s.rows[e.kind]) = 1 THEN Maybe(s)       \* the last one stays
                       ELSE Touch([s EXCEPT !.rows[e.kind] = Without(@, e.i)])
    [] e.op = "row" -> IF s.rows[e.kind][e.i].v[e.f] = e.v THEN s
                       ELSE Touch([s EXCEPT !.rows[e.kind][e.i].v[e.f] = e.v])
    [] e.op = "set" -> IF s.set[e.f] = e.v THEN s
                       ELSE IF e.f = Slider THEN [s EXCEPT !.set[e.f] = e.v, !.was = {e.v}]
                       ELSE Touch([s EXCEPT !.set[e.f] = e.v])
    [] e.op = "drag" -> LET x == [s EXCEPT !.set[e.f] = e.v, !.moving = e.f]
                        IN  IF e.f = Slider THEN [x EXCEPT !.was = @ \cup {e.v}] ELSE Maybe(x)
    [] e.op = "drop" -> LET x == [s EXCEPT !.moving = "", !.was = {s.set[Slider]}]
                        IN  IF e.f = Slider THEN x ELSE Touch(x)
    [] e.op = "size" -> [s EXCEPT !.w = e.w]

\* what is shown
Shows(s) ==      \* fields that are hidden
  (IF s.set["options-slope_choice"] = "length" THEN {"slope-angle"} ELSE {"slope-length"})
  \cup (IF s.set["watertable-consider_water"] = Off THEN {"watertable-water_depth"} ELSE {})
  \cup (IF s.set["limits-consider_limits"] = Off
        THEN {"limits-left_x", "limits-right_x", "limits-consider_internal_limits", "limits-left_x_right", "limits-right_x_left"}
        ELSE IF s.set["limits-consider_internal_limits"] = Off THEN {"limits-left_x_right", "limits-right_x_left"} ELSE {})
\* the limits of the planes shown that are possible: while it is moved, either
Limits(s) == s.was

-----------------------------------------------------------------------------
Served == JsonDeserialize(IOEnv.SERVED)
Actions == JsonDeserialize(IOEnv.ACTIONS)
CONSTANTS MaxRows

Open == [rows |-> [k \in DOMAIN Served.rows |-> [i \in 1..Len(Served.rows[k]) |-> [v |-> Served.rows[k][i], t |-> Served.rows[k][i]]]],
         set |-> Served.set, changed |-> "no", moving |-> "", was |-> {Served.set[Slider]}, w |-> Served.w, busy |-> "no"]

VARIABLES page, last
vars == <<page, last>>
View == page
Init == page = Open /\ last = 0
Next == \E i \in 1..Len(Actions):
          /\ Can(page, Actions[i])
          /\ Actions[i].op = "add" => Len(page.rows[Actions[i].kind]) < MaxRows
          /\ page' = Step(page, Actions[i])
          /\ last' = i
Spec == Init /\ [][Next]_vars
Edge == PrintT("EDGE|" \o ToString(page) \o "|" \o ToString(last') \o "|" \o ToString(page'))

-----------------------------------------------------------------------------
Values(s, k) == [i \in 1..Len(s.rows[k]) |-> s.rows[k][i].v]
Kinds == DOMAIN Open.rows
P26_OneRowStays == \A k \in Kinds: Len(page.rows[k]) >= 1
\* an action on one kind of rows leaves the others and all other fields alone
P26_Separate == [][LET e == Actions[last'] IN
  /\ \A k \in Kinds: (e.op \notin {"add", "del", "row"} \/ e.kind # k) => page'.rows[k] = page.rows[k]
  /\ e.op \in {"add", "del", "row", "size"} => page'.set = page.set]_vars
\* rows that stay keep their values and their order
P26_KeepsOrder == [][LET e == Actions[last'] IN
  /\ e.op = "add" => LET q == Values(page', e.kind) IN SubSeq(q, 1, Len(q) - 1) = Values(page, e.kind)
  /\ e.op = "del" => \/ Values(page', e.kind) = Values(page, e.kind) /\ Len(page.rows[e.kind]) = 1
                     \/ Values(page', e.kind) = Without(Values(page, e.kind), e.i)]_vars
\* a new row starts like a row of the page as served
P26_NewRow == \A k \in Kinds: \A i \in 1..Len(page.rows[k]): \E j \in 1..Len(Open.rows[k]): page.rows[k][i].t = Open.rows[k][j].v
\* unless something was changed the form is the form served, but for the slider
P28_Unchanged == page.changed = "no" =>
  /\ \A k \in Kinds: Values(page, k) = Values(Open, k)
  /\ \A f \in DOMAIN page.set: page.set[f] = Open.set[f] \/ f = Slider
P28_StaysChanged == [][page.changed = "yes" => page'.changed = "yes"]_vars
\* nothing but the slider changes which planes are shown
P27_SliderOnly == [][Limits(page') # Limits(page) => Actions[last'].op \in {"set", "drag", "drop"} /\ Actions[last'].f = Slider]_vars
\* only asking makes the page busy
P28_Busy == [][page'.busy = "yes" => Actions[last'].op = "ask"]_vars
P28_Settled == page.moving # Slider => Limits(page) = {page.set[Slider]}
=============================================================================
