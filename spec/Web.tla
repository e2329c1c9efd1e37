-------------------------------- MODULE Web ---------------------------------
(***************************************************************************)
(* Browser sessions of the web application (P25).                          *)
(*                                                                         *)
(* Per browser: what its session holds - nothing, the default model or     *)
(* the most recent valid submission - and where its last response sent it. *)
(* Serve says how one request of one browser is answered; WebTrace.tla     *)
(* judges recorded histories with the same operator.                       *)
(*                                                                         *)
(* A request is a record                                                   *)
(*   b    browser                                                          *)
(*   k    "get"     load the page                                          *)
(*        "post"    submit form i                                          *)
(*        "reset"   clear                                                  *)
(*        "report"  download the planes below f; good: f is a number       *)
(*        "other"   a request to the page that is neither GET nor POST;    *)
(*                 the answer is left open, but nothing changes            *)
(*        "follow"  go where the last response sent the browser            *)
(*        "forget"  the browser loses its cookie (no request)              *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Nothing == 0
Default == 10000        \* submissions are 1, 2, ..

Page(x)      == [k |-> "page", of |-> x, to |-> "", f |-> ""]
To(x)        == [k |-> "to", of |-> 0, to |-> x, f |-> ""]
Report(x, f) == [k |-> "report", of |-> x, to |-> "", f |-> f]
NoAnswer     == [k |-> "none", of |-> 0, to |-> "", f |-> ""]

Fresh == [has |-> Nothing, sent |-> ""]
Ans(s, r) == [s |-> s, r |-> r]

\* valid(i): submission i can be built and analysed
RECURSIVE Serve(_, _, _)
Serve(valid(_), s, q) ==
  CASE q.k = "get" ->
         LET x == IF s.has = Nothing THEN Default ELSE s.has
         IN  Ans([has |-> x, sent |-> ""], Page(x))
    [] q.k = "post" ->
         IF valid(q.i) THEN Ans([has |-> q.i, sent |-> ""], Page(q.i))
         ELSE Ans([s EXCEPT !.sent = "reset"], To("reset"))
    [] q.k = "reset" -> Ans([has |-> Nothing, sent |-> "index"], To("index"))
    [] q.k = "report" ->
         IF s.has = Nothing \/ ~q.good THEN Ans([s EXCEPT !.sent = "index"], To("index"))
         ELSE Ans([s EXCEPT !.sent = ""], Report(s.has, q.f))
    [] q.k = "other" -> Ans([s EXCEPT !.sent = ""], NoAnswer)
    [] q.k = "follow" ->
         IF s.sent = "reset" THEN Serve(valid, s, [q EXCEPT !.k = "reset"])
         ELSE IF s.sent = "index" THEN Serve(valid, s, [q EXCEPT !.k = "get"])
         ELSE Ans(s, NoAnswer)
    [] q.k = "forget" -> Ans(Fresh, NoAnswer)

-----------------------------------------------------------------------------
Requests == JsonDeserialize(IOEnv.REQUESTS)
Valid == JsonDeserialize(IOEnv.VALID)       \* sequence of BOOLEAN
CONSTANTS Browsers, MaxDepth, Ghosts
IsValid(i) == Valid[i]

VARIABLES st,      \* browser -> session
          last,    \* the request, its answer, and the index of the request
          ghost    \* browser -> requests of this browser so far (if Ghosts)
vars == <<st, last, ghost>>
View == <<st, ghost>>

Init == /\ st = [b \in Browsers |-> Fresh]
        /\ last = [q |-> <<>>, r |-> NoAnswer, i |-> 0]
        /\ ghost = [b \in Browsers |-> <<>>]

Ask(i) ==
  LET q == Requests[i]
      a == Serve(IsValid, st[q.b], q)
  IN  /\ q.k = "follow" => st[q.b].sent # ""
      /\ st' = [st EXCEPT ![q.b] = a.s]
      /\ last' = [q |-> <<q>>, r |-> a.r, i |-> i]
      /\ ghost' = IF Ghosts THEN [ghost EXCEPT ![q.b] = Append(@, [q |-> q, r |-> a.r])] ELSE ghost
Long == IF Ghosts THEN Cardinality({<<b, i>> \in Browsers \X (1..MaxDepth): i <= Len(ghost[b])}) ELSE 0
Next == Long < MaxDepth /\ \E i \in 1..Len(Requests): Ask(i)
Spec == Init /\ [][Next]_vars

\* action constraint: writes the transition down for the replay
Enc(s) == [b \in Browsers |-> <<s[b].has, s[b].sent>>]
Edge == PrintT("EDGE|" \o ToString(Enc(st)) \o "|" \o ToString(last'.i) \o "|" \o ToString(Enc(st')))

-----------------------------------------------------------------------------
(* what a user relies on, said about histories rather than session contents *)
H(b) == ghost[b]
\* where the history of b was last cleared: a reset answered, or a lost cookie
Cleared(b, n) == {j \in 1..n: H(b)[j].q.k = "forget" \/ (H(b)[j].r.k = "to" /\ H(b)[j].r.to = "index" /\ H(b)[j].q.k \in {"reset", "follow"})}
ValidPosts(b, n) == {j \in 1..n: H(b)[j].q.k = "post" /\ H(b)[j].r.k = "page"}
SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S: \A y \in S: y <= x

\* what is shown or reported is the most recent valid submission since, or else the default
P25_LastValid ==
  \A b \in Browsers: \A n \in 1..Len(H(b)):
    H(b)[n].r.k \in {"page", "report"} =>
      LET p == SetMax(ValidPosts(b, n))  c == SetMax(Cleared(b, n))
      IN  H(b)[n].r.of = IF p > c THEN H(b)[p].q.i ELSE Default
\* a report needs a page to have been shown since
P25_ReportsStored ==
  \A b \in Browsers: \A n \in 1..Len(H(b)):
    H(b)[n].r.k = "report" =>
      \E j \in 1..(n-1): /\ H(b)[j].r.k = "page" /\ H(b)[j].r.of = H(b)[n].r.of
                         /\ SetMax(Cleared(b, n)) < j
\* an invalid submission leads, when its redirects are followed, to the default page
P25_InvalidClears ==
  \A b \in Browsers: st[b].sent = "reset" =>
    LET one == Serve(IsValid, st[b], [k |-> "follow"])
        two == Serve(IsValid, one.s, [k |-> "follow"])
    IN  one.r = To("index") /\ two.r = Page(Default)
\* following redirects ends at a page
P25_NoLoop ==
  \A b \in Browsers: st[b].sent # "" =>
    LET one == Serve(IsValid, st[b], [k |-> "follow"])
    IN  one.r.k = "page" \/ Serve(IsValid, one.s, [k |-> "follow"]).r.k = "page"
P25_PageStored == \A b \in Browsers: last.q # <<>> /\ last.q[1].b = b /\ last.r.k = "page" => st[b].has = last.r.of
P25_Isolation == [][\A b \in Browsers: b # last'.q[1].b => st'[b] = st[b]]_vars
=============================================================================
