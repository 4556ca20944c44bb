------------------------------ MODULE SimdTrace ------------------------------
(* Conformance of recorded single v128 instruction executions:              *)
(*   {op: opcode of the 0xFD page, m: immediate (lane, or 16 bytes),        *)
(*    a: operands, r: result bytes, t: trap id or -1}                       *)
EXTENDS Simd, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
Ok(r) == r.t = -1 /\ VAllowed(SimdOp(r.op, IF Len(r.m) = 1 THEN r.m[1] ELSE r.m, r.a), r.r)
Init == i \in 1..Len(Trace) /\ bad = FALSE
Next == bad = FALSE /\ i' = i /\ bad' = ~Ok(Trace[i]) /\ bad' = TRUE
Spec == Init /\ [][Next]_<<i, bad>>
Conforms == ~bad
=============================================================================
