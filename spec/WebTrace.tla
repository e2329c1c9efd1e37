------------------------------ MODULE WebTrace ------------------------------
(***************************************************************************)
(* Judges what the web application did (P24, P25).                         *)
(*                                                                         *)
(* "history" jobs: requests of several browsers and the answers they got.  *)
(*   valid     for each submission whether it is valid                     *)
(*   steps     [q: request as in Web, a: answer]; an answer is             *)
(*             [k: "page", planes, figure, fields]  what the page shows    *)
(*             [k: "to", to: "reset" or "index"]    redirect               *)
(*             [k: "report", base, below]           figure and planes      *)
(*             [k: "error", code]                                          *)
(*   ref       what page i shows to a browser that submits nothing else:   *)
(*             [planes, figure]; the last one is the default page          *)
(*   rep       reports of page i alone, by requested number                *)
(*   fields    values submitted by form i, last: those of the empty form   *)
(* "result" jobs: one submission                                           *)
(*   web       planes the page shows [cx, cy, r, lx, ly, rx, ry, fos]      *)
(*   lib       planes of the library for the calls of WebForms             *)
(*   order     factors of safety in the order displayed                    *)
(*   all       planes in the order displayed                               *)
(*   paths     [i: plane, pts] some of the paths displayed                 *)
(*   shown, stored  digests of the planes displayed, and displayed again   *)
(*             when the page is loaded afterwards                          *)
(***************************************************************************)
EXTENDS Figure, Json, IOUtils

W == INSTANCE Web WITH st <- 0, last <- 0, ghost <- 0, Browsers <- {}, MaxDepth <- 0, Ghosts <- FALSE

Jobs == ndJsonDeserialize(IOEnv.JOBS)
VARIABLES pt, done

Complain(k, i, prop, what) == PrintT("FAIL|" \o ToString(k) \o "|" \o ToString(i) \o "|" \o prop \o "|" \o what)
Ok(k, i, prop, what, ok) == IF ok THEN TRUE ELSE Complain(k, i, prop, what)

-----------------------------------------------------------------------------
Idx(job, x) == IF x = W!Default THEN Len(job.ref) ELSE x

\* fields of the page equal the submitted ones
FieldsOk(want, got) == \A n \in DOMAIN want: n \in DOMAIN got /\ got[n] = want[n]

Answer(k, i, job, want, a) ==
  /\ Ok(k, i, "P25", "no request causes a server error", a.k # "error")
  /\ a.k # "error" =>
     CASE want.k = "page" ->
            /\ Ok(k, i, "P25", "the page is shown", a.k = "page")
            /\ a.k = "page" =>
               LET x == Idx(job, want.of) IN
               /\ Ok(k, i, "P25", "the page shows the planes of the last valid submission, or of the default model", a.planes = job.ref[x].planes)
               /\ Ok(k, i, "P25", "the page shows the plot of the last valid submission, or of the default model", a.figure = job.ref[x].figure)
               /\ Ok(k, i, "P25", "the page shows the form as last validly submitted, or empty", FieldsOk(job.fields[x], a.fields))
       [] want.k = "to" ->
            Ok(k, i, "P25", IF want.to = "reset" THEN "an invalid submission leads through the reset"
                            ELSE "a reset, or a report without anything to report, leads back to the page",
               a.k = "to" /\ a.to = want.to)
       [] want.k = "report" ->
            /\ Ok(k, i, "P25", "the report is downloaded", a.k = "report")
            /\ a.k = "report" =>
               LET x == Idx(job, want.of) IN
               Ok(k, i, "P25", "the report shows what is stored, below the number requested",
                  a.base = job.ref[x].figure /\ a.below = job.rep[x][want.f])
       [] OTHER -> TRUE

History(k, job) ==
  LET n == Len(job.steps)
      bs == {job.steps[i].q.b : i \in 1..n}
      f[i \in 0..n] == IF i = 0 THEN [b \in bs |-> W!Fresh]
                       ELSE [f[i-1] EXCEPT ![job.steps[i].q.b] = W!Serve(LAMBDA j: job.valid[j], @, job.steps[i].q).s]
  IN  \A i \in 1..n:
        LET q == job.steps[i].q
            a == W!Serve(LAMBDA j: job.valid[j], f[i-1][q.b], q)
        IN  Answer(k, i, job, a.r, job.steps[i].a)

-----------------------------------------------------------------------------
SamePlane(p, q) ==
  /\ Close(p.cx, q.cx) /\ Close(p.cy, q.cy) /\ Close(p.r, q.r) /\ Close(p.lx, q.lx) /\ Close(p.ly, q.ly)
  /\ Close(p.rx, q.rx) /\ Close(p.ry, q.ry) /\ Close(p.fos, q.fos)
Result(k, job) ==
  /\ Ok(k, 0, "P24", "as many planes as the library finds for the same model", Len(job.web) = Len(job.lib))
  /\ Ok(k, 0, "P24", "planes and factors of safety are those of the library for the same model",
        Len(job.web) = Len(job.lib) => \A i \in 1..Len(job.lib): SamePlane(job.web[i], job.lib[i]))
  /\ Ok(k, 0, "P24", "planes are in ascending order of factor of safety",
        \A i \in 2..Len(job.order): job.order[i-1] \preceq job.order[i])
  /\ Ok(k, 0, "P24", "a displayed plane runs along its circle from entry to exit",
        \A i \in 1..Len(job.paths): Along(job.paths[i].pts, job.all[job.paths[i].i]))
  /\ Ok(k, 0, "P24", "what is stored is what was displayed", job.shown = job.stored)

Judge(k) == LET job == Jobs[k] IN
  CASE job.kind = "history" -> History(k, job)
    [] job.kind = "result" -> Result(k, job)

Init == pt \in 1..Len(Jobs) /\ done = FALSE
Next == ~done /\ Judge(pt) /\ done' = TRUE /\ pt' = pt
Spec == Init /\ [][Next]_<<pt, done>>
=============================================================================
