------------------------------ MODULE Threads -------------------------------
(* Threads of a program (wasi-threads).  Thread 0 is the main function, the  *)
(* others are named by the request that created them.                        *)
(*   st   no / ask (spawn requested) / live (created) / run (in its entry    *)
(*        point) / leave (about to return) / quit (about to exit or trap) /  *)
(*        dead / fail (the request was refused)                              *)
(*   tid  identifier of a created thread                                     *)
(*   qo   outcome a thread in "quit" is going to cause                       *)
(*   out  outcome of the program, None while it runs                         *)
(* Once there is an outcome, threads stop where they are, some time later.   *)
EXTENDS Naturals, Integers, FiniteSets
CONSTANT Ks           \* names of threads, with 0
VARIABLES st, tid, qo, out
tvars == <<st, tid, qo, out>>

None == <<>>
Exit(c) == <<0, c>>
Trap(i) == <<1, i>>
MaxTid == 536870911

Up == {"live", "run", "leave", "quit"}
ThreadsInit == /\ st = [k \in Ks |-> IF k = 0 THEN "run" ELSE "no"]
               /\ tid = [k \in Ks |-> 0]
               /\ qo = [k \in Ks |-> None]
               /\ out = None

Free(t) == t \in 1..MaxTid /\ \A j \in Ks \ {0} : st[j] \in Up => tid[j] # t

Ask(w, k) == /\ st[w] = "run" /\ st[k] = "no"
             /\ st' = [st EXCEPT ![k] = "ask"] /\ UNCHANGED <<tid, qo, out>>
Refuse(k) == /\ st[k] = "ask"
             /\ st' = [st EXCEPT ![k] = "fail"] /\ UNCHANGED <<tid, qo, out>>
Create(k, t) == /\ st[k] = "ask" /\ Free(t)
                /\ st' = [st EXCEPT ![k] = "live"] /\ tid' = [tid EXCEPT ![k] = t]
                /\ UNCHANGED <<qo, out>>
Enter(k) == /\ st[k] = "live"
            /\ st' = [st EXCEPT ![k] = "run"] /\ UNCHANGED <<tid, qo, out>>
Leave(k) == /\ st[k] = "run"
            /\ st' = [st EXCEPT ![k] = "leave"] /\ UNCHANGED <<tid, qo, out>>
\* a thread that returns ends only itself, the main function ends the program
Gone(k) == /\ st[k] = "leave"
           /\ st' = [st EXCEPT ![k] = "dead"]
           /\ out' = IF k = 0 /\ out = None THEN Exit(0) ELSE out
           /\ UNCHANGED <<tid, qo>>
Announce(k, o) == /\ st[k] = "run"
                  /\ st' = [st EXCEPT ![k] = "quit"] /\ qo' = [qo EXCEPT ![k] = o]
                  /\ UNCHANGED <<tid, out>>
\* the first one is the outcome
Quit(k) == /\ st[k] = "quit"
           /\ st' = [st EXCEPT ![k] = "dead"]
           /\ out' = IF out = None THEN qo[k] ELSE out
           /\ UNCHANGED <<tid, qo>>
Stop(k) == /\ out # None /\ st[k] \in Up
           /\ st' = [st EXCEPT ![k] = "dead"] /\ UNCHANGED <<tid, qo, out>>

TidsDistinct == \A j, k \in Ks \ {0} : j # k /\ st[j] \in Up /\ st[k] \in Up => tid[j] # tid[k]
TidsPositive == \A k \in Ks \ {0} : st[k] \in Up => tid[k] \in 1..MaxTid
=============================================================================
