------------------------------ MODULE NumTrace -------------------------------
(* Conformance of recorded single instruction executions: every record      *)
(*   {op, a: [operand bytes...], r: [result bytes], t: trap id or -1}       *)
(* of the implementation must be allowed by Num.  Each record is an         *)
(* independent one-step behaviour.                                          *)
EXTENDS Num, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
Res(r) == IF Len(r.a) = 1 THEN NumUn(r.op, r.a[1]) ELSE NumBin(r.op, r.a[1], r.a[2])
\* trap ids of the embedding API
TrapId(t) == CASE t = "div0" -> 1 [] t = "ovf" -> 2 [] t = "conv" -> 10
Ok(r) == LET x == Res(r) IN
         IF x.k = "trap" THEN r.t = TrapId(x.t)
         ELSE r.t = -1 /\ Allowed(x, r.r)
Init == i \in 1..Len(Trace) /\ bad = FALSE
Next == bad = FALSE /\ i' = i /\ bad' = ~Ok(Trace[i]) /\ bad' = TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Conforms == ~bad
=============================================================================
