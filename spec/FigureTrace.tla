---------------------------- MODULE FigureTrace -----------------------------
(***************************************************************************)
(* Judges recorded figures of the real library (P22, P23).                 *)
(*                                                                         *)
(* A job is one figure: the calls that build the model, what the analysis  *)
(* reported, the arguments of the plot, and the figure as read back:       *)
(*   calls     calls on a default slope                                    *)
(*   kind      "boundary", "critical" or "all"                             *)
(*   maxplot   argument max_fos of plot_all_planes                         *)
(*   table, legend  arguments of the plot: "yes", "no" or "default"        *)
(*   rep       planes reported by the analysis                             *)
(*   fig.outline  points of the outline                                    *)
(*   fig.strata   filled polygons [uw, c, phi, name, col, pts, hover]      *)
(*   fig.boxes    boxes of uniform loads [x0, x1, col, y]                  *)
(*   fig.arrows   arrows of loads [x, col, y]                              *)
(*   fig.labels   load labels [x, y, unit, v]                              *)
(*   fig.water    water lines, each a sequence of points                   *)
(*   fig.levels   heights of the water marks                               *)
(*   fig.opens, fig.closes, fig.bars   limit markers, points               *)
(*   fig.heads    heads of the table of strata [x, what]                   *)
(*   fig.table    rows of the table of strata [y, x, name, uw, c, phi]     *)
(*   fig.patches  filled rectangles on the paper [x0, x1, y0, y1, col]     *)
(*   fig.swatches colours of the legend from the top [y0, y1, col]         *)
(*   fig.marks    numbers at the legend [y, v]; fig.title: has it a title  *)
(*   fig.lines    plane of the critical plot [pts, col]                    *)
(*   fig.centres  circle centres [x, y, text, cx, cy, r, fos]              *)
(*   fig.planes   planes of the plot of all planes [pts, fos, col, who]    *)
(*                who: index into rep (a witness, checked here)            *)
(*   fig.drawn    the planes in the order they are drawn                   *)
(*   fig.legend   colours of the legend, for 0.0, 0.1, .. 5.0              *)
(* The expected figure is a function of the model (Core) and of rep.       *)
(***************************************************************************)
EXTENDS Figure, Json, IOUtils

Jobs == ndJsonDeserialize(IOEnv.JOBS)
Parts == ndJsonDeserialize(IOEnv.PARTS)
VARIABLES pt, done

ModelOf(calls) ==
  FoldLeft(LAMBDA m, e: Op(m, e).m, EmptyModel(One, One \oslash RTan(R("30"))), calls)

-----------------------------------------------------------------------------
Judge(k) ==
  LET part == Parts[k]  job == Jobs[part.j]
  IN  CASE part.kind = "boundary" -> Boundary(part.j, job, ModelOf(job.calls))
        [] part.kind = "critical" -> Critical(part.j, job, ModelOf(job.calls))
        [] part.kind = "all" -> All(part.j, job)
        [] part.kind = "notes" -> Notes(part.j, job, ModelOf(job.calls))
        [] part.kind = "planes" -> Planes(part.j, job, part.a, part.b)

Init == pt \in 1..Len(Parts) /\ done = FALSE
Next == ~done /\ Judge(pt) /\ done' = TRUE /\ pt' = pt
Spec == Init /\ [][Next]_<<pt, done>>
=============================================================================
