------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* IEEE-754 double precision numbers as TLA+ values.                       *)
(*                                                                         *)
(* A number is the pair <<hi, lo>> of the signed 32-bit halves of its bit  *)
(* pattern (TLC's integers have 32 bits), so equality of values is         *)
(* equality of numbers (zero is always +0).  The primitives below have no  *)
(* TLA+ definition; TLC evaluates them with the methods of the same name   *)
(* in Real64.java, each a single IEEE operation.  Everything else in the   *)
(* specification is TLA+ on top of them.                                   *)
(***************************************************************************)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL Unspecified == CHOOSE x \in {} : TRUE

R(str)     == Unspecified      \* the double nearest to a decimal numeral
RI(int)    == Unspecified      \* an integer as a number
RAdd(a, b) == Unspecified
RSub(a, b) == Unspecified
RMul(a, b) == Unspecified
RDiv(a, b) == Unspecified
RSqrt(a)   == Unspecified
RTan(a)    == Unspecified      \* tangent of an angle in degrees
RLt(a, b)  == Unspecified      \* BOOLEAN
RLe(a, b)  == Unspecified      \* BOOLEAN
RFloor(a)  == Unspecified      \* greatest integer not above a, as TLC integer
RStr(a)    == Unspecified      \* shortest decimal numeral, for messages
RSum(s)    == Unspecified      \* sum of a sequence of numbers, from the left

a \oplus b  == RAdd(a, b)
a \ominus b == RSub(a, b)
a \otimes b == RMul(a, b)
a \oslash b == RDiv(a, b)
a \prec b   == RLt(a, b)
a \preceq b == RLe(a, b)
a \succ b   == RLt(b, a)
a \succeq b == RLe(b, a)

Zero == R("0")
One  == R("1")
Two  == R("2")

RNeg(a)    == Zero \ominus a
RAbs(a)    == IF a \prec Zero THEN RNeg(a) ELSE a
RMax(a, b) == IF a \prec b THEN b ELSE a
RMin(a, b) == IF b \prec a THEN b ELSE a
Sq(a)      == a \otimes a
Half(a)    == a \oslash Two

\* the largest / smallest number of a non-empty sequence
RMaxSeq(s) == LET m[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE RMax(m[i-1], s[i]) IN m[Len(s)]
RMinSeq(s) == LET m[i \in 1..Len(s)] == IF i = 1 THEN s[1] ELSE RMin(m[i-1], s[i]) IN m[Len(s)]

\* |a - b| <= tol, FALSE if either is NaN
Within(a, b, tol) == RAbs(a \ominus b) \preceq tol
\* equal up to rounding, relative for large and absolute for small numbers
Close(a, b) == a = b \/ Within(a, b, R("1e-9") \otimes (One \oplus RMax(RAbs(a), RAbs(b))))
=============================================================================
