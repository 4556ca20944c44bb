----------------------------- MODULE ReplTrace ------------------------------
(* Recorded sessions of the command line tool, explained by Repl.           *)
EXTENDS Repl, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(2, Traces)
ASSUME TLCSet(1, {})
ASSUME TLCSet(3, [i \in 1..Len(TLCGet(2)) |-> 0])
VARIABLES t, l, st
vars == <<t, l, st>>
T == TLCGet(2)[t]

Fun(ps) == FoldLeft(LAMBDA f, x : (x[1] :> x[2]) @@ f, <<>>, ps)
First(x) == [lib |-> x.lib, inst |-> <<>>, cell |-> <<>>, mods |-> <<>>, reg |-> <<>>,
             files |-> Fun(x.files), wasi |-> x.wasi = 1, au |-> x.au = 1]

Init == t \in 1..Len(TLCGet(2)) /\ l = 1 /\ st = TLCEval(First(T))
Next == /\ l <= Len(T.v)
        /\ st' \in Step(st, T.v[l])
        /\ l' = l + 1
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

Done == l > Len(T.v)
Count == /\ t \notin TLCGet(1)
         /\ IF TLCGet(3)[t] < l THEN TLCSet(3, [TLCGet(3) EXCEPT ![t] = l]) ELSE TRUE
         /\ IF Done THEN TLCSet(1, TLCGet(1) \cup {t}) ELSE TRUE

\* names lead to instances, instances to modules and cells
Sound == /\ \A k \in DOMAIN st.mods : st.mods[k].i \in DOMAIN st.inst
         /\ \A k \in DOMAIN st.reg : st.reg[k].i \in {st.mods[j].i : j \in DOMAIN st.mods}
         /\ \A i \in DOMAIN st.inst : st.inst[i].ctr \in DOMAIN st.cell /\ st.inst[i].m \in DOMAIN st.lib
AllDone == /\ PrintT(<<"explained", TLCGet(1)>>)
           /\ PrintT(<<"reached", TLCGet(3)>>)
=============================================================================
