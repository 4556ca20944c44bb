---------------------------- MODULE MemCtxTrace -----------------------------
(* Recorded use of memory contexts: {par, lim, s: operations, v: events}.    *)
EXTENDS MemCtx, TLC, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, 0)
VARIABLES t, l, M, ph
vars == <<t, l, M, ph>>
T == Traces[t]
O == T.s[l]
E == T.v[l]
Init == /\ t \in 1..Len(Traces) /\ l = 1 /\ ph = "run"
        /\ M = Fresh(Traces[t].par, Traces[t].lim, 16)
\* d < 0: the size itself overflows
Result == CASE O.o \in {"a", "z", "c"} -> IF O.d < 0 THEN <<M, FALSE>> ELSE Alloc(M, O.c, O.i, O.d)
            [] O.o \in {"e", "E"} -> Extend(M, O.i, O.d)
            [] O.o = "s" -> Shrink(M, O.i, O.d)
            [] O.o = "f" -> Free(M, O.i)
            [] O.o = "l" -> SetLimit(M, O.c, O.d)
\* the request may appear in the peak of a context even if an ancestor refused
Tried == {M.al[a] + O.d : a \in DOMAIN M.al}
PeakFits(ok, N) == \A a \in DOMAIN N.pk :
    \/ E.pk[a] = N.pk[a]
    \/ ~ok /\ O.o \in {"a", "z", "c", "e", "E"} /\ E.pk[a] > M.pk[a] /\ E.pk[a] <= M.lim[a]
OpFits == E.ok = (IF Result[2] THEN 1 ELSE 0) /\ E.bad = 0 /\ E.al = Result[1].al
          /\ PeakFits(Result[2], Result[1])
Step == /\ ph = "run" /\ l <= Len(T.s)
        /\ IF l <= Len(T.v) /\ E.e = "ma" /\ OpFits
           THEN M' = [Result[1] EXCEPT !.pk = E.pk] /\ l' = l + 1 /\ ph' = ph
           ELSE M' = M /\ l' = l /\ ph' = "bad"
        /\ UNCHANGED t
Finish == /\ ph = "run" /\ l > Len(T.s)
          /\ ph' = IF Len(T.v) = l /\ E.e = "end" THEN "done" ELSE "bad"
          /\ UNCHANGED <<t, l, M>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
Conforms == ph # "bad"
Sound == Exact(M) /\ Limited(M)
Count == IF ph = "done" THEN TLCSet(1, TLCGet(1) + 1) ELSE TRUE
AllDone == PrintT(<<"finished", TLCGet(1)>>)
=============================================================================
