----------------------------- MODULE DyldTrace ------------------------------
(* What programs with shared libraries were seen to do, explained by Dyld.  *)
EXTENDS Dyld, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(2, Traces)
ASSUME TLCSet(1, {})
ASSUME TLCSet(3, [i \in 1..Len(TLCGet(2)) |-> 0])
VARIABLES t, l, st
vars == <<t, l, st>>
T == TLCGet(2)[t]

Init == t \in 1..Len(TLCGet(2)) /\ l = 1 /\ st = TLCEval(Start(T.cfg))
Log == /\ l <= Len(T.v)
       /\ T.v[l].v = "log"
       /\ st.ph = "run"
       /\ Top(st).k = "fn" /\ Top(st).pc <= Len(Fun(st).acts)
       /\ T.v[l].m = M(st, Top(st).o).id
       /\ T.v[l].tag = Top(st).f * 100 + Top(st).pc
       /\ st' \in Out(st, T.v[l].val)
       /\ l' = l + 1
       /\ UNCHANGED t
Quiet == /\ st' \in Silent(st)
         /\ UNCHANGED <<t, l>>
End == /\ l = Len(T.v)
       /\ T.v[l].v = "end"
       /\ Exits(st, T.v[l].status)
       /\ l' = l + 1
       /\ UNCHANGED <<t, st>>
Next == Log \/ Quiet \/ End
Spec == Init /\ [][Next]_vars

Done == l > Len(T.v)
Count == /\ t \notin TLCGet(1)
         /\ IF TLCGet(3)[t] < l THEN TLCSet(3, [TLCGet(3) EXCEPT ![t] = l]) ELSE TRUE
         /\ IF Done THEN TLCSet(1, TLCGet(1) \cup {t}) ELSE TRUE

Sound == /\ Fits(st)
         /\ Len(st.got) = Len(st.objs) \/ st.ph = "failed"
         /\ \A c \in DOMAIN st.cell : st.cell[c].k # "-"
AllDone == /\ PrintT(<<"explained", TLCGet(1)>>)
           /\ PrintT(<<"reached", TLCGet(3)>>)
=============================================================================
