----------------------------- MODULE ThreadsMC ------------------------------
(* The way the library implements Threads: an identifier allocator and a     *)
(* count of running threads under one lock, an interrupt flag that is set    *)
(* together with the outcome by whoever is first, and that every thread      *)
(* looks at now and then; the main thread waits for the count to become      *)
(* zero before it reports.  Checked to refine Threads, and to end.           *)
EXTENDS Threads, TLC
CONSTANT NTid
VARIABLES intr, nrun, ids, pc, by, fin
mvars == <<st, tid, qo, out, intr, nrun, ids, pc, by, fin>>
Others == Ks \ {0}
Outs == {Exit(1), Trap(4)}

Init == /\ ThreadsInit
        /\ intr = FALSE /\ nrun = 1 /\ ids = {} /\ fin = None
        /\ pc = [k \in Ks |-> "ok"] /\ by = [k \in Ks |-> 0]
\* running threads look at the flag at any time between their actions
Poll(k) == /\ st[k] \in {"run", "live"} /\ intr /\ pc[k] = "ok"
           /\ pc' = [pc EXCEPT ![k] = "cut"]
           /\ UNCHANGED <<st, tid, qo, out, intr, nrun, ids, by, fin>>
Spawn(w, k) ==
    /\ pc[w] = "ok" /\ Ask(w, k)
    /\ pc' = [pc EXCEPT ![k] = "req", ![w] = "busy"]    \* until it is answered
    /\ by' = [by EXCEPT ![k] = w]
    /\ UNCHANGED <<intr, nrun, ids, fin>>
Alloc(k) ==
    /\ pc[k] = "req"
    /\ \/ \E t \in 1..NTid : t \notin ids /\ (\A s \in 1..NTid : s \notin ids => t <= s) /\
          /\ Create(k, t) /\ ids' = ids \cup {t} /\ nrun' = nrun + 1
          /\ pc' = [pc EXCEPT ![k] = "ok", ![by[k]] = "ok"]
       \/ /\ \A t \in 1..NTid : t \in ids
          /\ Refuse(k) /\ pc' = [pc EXCEPT ![k] = "ok", ![by[k]] = "ok"] /\ UNCHANGED <<ids, nrun>>
    /\ UNCHANGED <<intr, by, fin>>
Start(k) == pc[k] = "ok" /\ Enter(k) /\ UNCHANGED <<intr, nrun, ids, pc, by, fin>>
Ret(k) == pc[k] = "ok" /\ Leave(k) /\ UNCHANGED <<intr, nrun, ids, pc, by, fin>>
Die(k, o) == pc[k] = "ok" /\ Announce(k, o) /\ UNCHANGED <<intr, nrun, ids, pc, by, fin>>
\* under the lock: propagate, free the identifier, leave the cluster
End(k) ==
    /\ k # 0
    /\ \/ st[k] = "leave" /\ Gone(k) /\ UNCHANGED intr
       \/ st[k] = "quit" /\ Quit(k) /\ intr' = TRUE
       \/ pc[k] = "cut" /\ Stop(k) /\ UNCHANGED intr
    /\ ids' = ids \ {tid[k]} /\ nrun' = nrun - 1
    /\ UNCHANGED <<pc, by, fin>>
MainEnd ==
    /\ \/ st[0] = "leave" /\ Gone(0)
       \/ st[0] = "quit" /\ Quit(0)
       \/ pc[0] = "cut" /\ Stop(0)
    /\ intr' = TRUE /\ nrun' = nrun - 1
    /\ UNCHANGED <<ids, pc, by, fin>>
Report == /\ st[0] = "dead" /\ nrun = 0 /\ fin = None
          /\ fin' = out /\ UNCHANGED <<st, tid, qo, out, intr, nrun, ids, pc, by>>
Next == \/ \E k \in Ks : Poll(k) \/ Alloc(k) \/ Start(k) \/ Ret(k) \/ End(k) \/ \E o \in Outs : Die(k, o)
        \/ \E w, k \in Ks : Spawn(w, k)
        \/ MainEnd \/ Report
\* the main function comes to its end, the others need not
Spec == Init /\ [][Next]_mvars
        /\ \A k \in Ks : WF_mvars(Poll(k)) /\ WF_mvars(End(k)) /\ WF_mvars(Alloc(k))
        /\ WF_mvars(MainEnd) /\ WF_mvars(Report) /\ WF_mvars(Ret(0))

Abstract == \/ \E w, k \in Ks : Ask(w, k)
            \/ \E k \in Ks : Refuse(k) \/ Enter(k) \/ Leave(k) \/ Gone(k) \/ Quit(k) \/ Stop(k)
            \/ \E k \in Ks, t \in 1..NTid : Create(k, t)
            \/ \E k \in Ks, o \in Outs : Announce(k, o)
Refines == [][Abstract]_tvars
Counts == nrun = Cardinality({k \in Ks : st[k] \in Up})
Faithful == fin # None => fin = out /\ \A k \in Ks : st[k] \notin Up
Ends == <>(fin # None)
=============================================================================
