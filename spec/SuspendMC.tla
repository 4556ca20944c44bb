----------------------------- MODULE SuspendMC ------------------------------
(* Growing a memory that other threads use: the grower makes all other       *)
(* threads park, moves the memory and lets them go on.  Locks are taken for  *)
(* whole steps; the condition variable is a set of sleeping threads that a   *)
(* broadcast empties, so that a missing broadcast shows as a thread that     *)
(* never wakes up.                                                           *)
(*   Old = TRUE is the algorithm before its repair: a grower that lost the   *)
(*   race started over without letting the others go on.                     *)
EXTENDS Naturals, FiniteSets
CONSTANTS Th, Max, Grows, Old
VARIABLES state,    \* "none" "stopping" "resuming"
          nrun, npark, cv, mlock, size,
          pc, orig, left, got
vars == <<state, nrun, npark, cv, mlock, size, pc, orig, left, got>>
Init == /\ state = "none" /\ nrun = Cardinality(Th) /\ npark = 0 /\ cv = {} /\ mlock = {}
        /\ size = 0
        /\ pc = [i \in Th |-> "run"] /\ orig = [i \in Th |-> 0]
        /\ left = [i \in Th |-> Grows] /\ got = [i \in Th |-> {}]
Go(i, x) == pc' = [pc EXCEPT ![i] = x]
(* running: use the memory, look for a request to park, grow, end *)
Access(i) == /\ pc[i] = "run" /\ Go(i, "access")
             /\ UNCHANGED <<state, nrun, npark, cv, mlock, size, orig, left, got>>
AccessEnd(i) == /\ pc[i] = "access" /\ Go(i, "check")
                /\ UNCHANGED <<state, nrun, npark, cv, mlock, size, orig, left, got>>
Check(i) == /\ pc[i] = "check" /\ Go(i, IF state = "stopping" THEN "park" ELSE "next")
            /\ UNCHANGED <<state, nrun, npark, cv, mlock, size, orig, left, got>>
Choose(i) == /\ pc[i] = "next"
             /\ Go(i, IF left[i] = 0 THEN "exit" ELSE "grow")
             /\ UNCHANGED <<state, nrun, npark, cv, mlock, size, orig, left, got>>
Exit(i) == /\ pc[i] = "exit" /\ nrun' = nrun - 1 /\ Go(i, "done")
           /\ cv' = IF state = "stopping" THEN {} ELSE cv
           /\ UNCHANGED <<state, npark, mlock, size, orig, left, got>>
(* parking; ret says where to go on *)
Park(i, from, to) ==
    /\ pc[i] = from
    /\ IF state # "stopping" THEN Go(i, "run") /\ UNCHANGED <<npark, cv>>
       ELSE /\ npark' = npark + 1
            /\ cv' = (IF nrun = npark + 2 THEN {} ELSE cv) \cup {i}
            /\ Go(i, to)
    /\ UNCHANGED <<state, nrun, mlock, size, orig, left, got>>
Parked(i, from, to) ==
    /\ pc[i] = from /\ i \notin cv
    /\ IF state = "stopping" THEN cv' = cv \cup {i} /\ UNCHANGED <<npark, state, pc>>
       ELSE /\ npark' = npark - 1
            /\ IF npark = 1 THEN state' = "none" /\ cv' = {} ELSE UNCHANGED <<state, cv>>
            /\ Go(i, to)
    /\ UNCHANGED <<nrun, mlock, size, orig, left, got>>
(* memory.grow by one page *)
Begin(i) == /\ pc[i] = "grow" /\ mlock = {}
            /\ IF size + 1 > Max
               THEN /\ left' = [left EXCEPT ![i] = @ - 1] /\ Go(i, "run") /\ UNCHANGED <<orig, mlock>>
               ELSE orig' = [orig EXCEPT ![i] = size] /\ Go(i, "suspend") /\ UNCHANGED <<left, mlock>>
            /\ UNCHANGED <<state, nrun, npark, cv, size, got>>
Suspend(i) == /\ pc[i] = "suspend"
              /\ CASE state = "stopping" ->
                        /\ npark' = npark + 1
                        /\ cv' = (IF nrun = npark + 2 THEN {} ELSE cv) \cup {i}
                        /\ Go(i, "sparked") /\ UNCHANGED state
                   [] state = "resuming" -> cv' = cv \cup {i} /\ Go(i, "swait") /\ UNCHANGED <<npark, state>>
                   [] state = "none" ->
                        /\ state' = "stopping" /\ UNCHANGED npark
                        /\ IF nrun # npark + 1 THEN cv' = cv \cup {i} /\ Go(i, "stop")
                           ELSE Go(i, "locked") /\ UNCHANGED cv
              /\ UNCHANGED <<nrun, mlock, size, orig, left, got>>
SWait(i) == /\ pc[i] = "swait" /\ i \notin cv /\ Go(i, "suspend")
            /\ UNCHANGED <<state, nrun, npark, cv, mlock, size, orig, left, got>>
Stop(i) == /\ pc[i] = "stop" /\ i \notin cv
           /\ IF nrun # npark + 1 THEN cv' = cv \cup {i} /\ UNCHANGED pc
              ELSE Go(i, "locked") /\ UNCHANGED cv
           /\ UNCHANGED <<state, nrun, npark, mlock, size, orig, left, got>>
Resume == /\ state' = (IF npark > 0 THEN "resuming" ELSE "none") /\ cv' = {}
Locked(i) == /\ pc[i] = "locked" /\ mlock = {}
             /\ IF size # orig[i]
                THEN \/ /\ Old /\ Go(i, "grow") /\ UNCHANGED <<state, cv, mlock>>
                     \/ /\ ~Old /\ Resume /\ Go(i, "grow") /\ UNCHANGED mlock
                ELSE mlock' = {i} /\ Go(i, "move") /\ UNCHANGED <<state, cv>>
             /\ UNCHANGED <<nrun, npark, size, orig, left, got>>
Move(i) == /\ pc[i] = "move" /\ size' = size + 1
           /\ got' = [got EXCEPT ![i] = @ \cup {orig[i]}]
           /\ left' = [left EXCEPT ![i] = @ - 1]
           /\ Resume /\ mlock' = {} /\ Go(i, "run")
           /\ UNCHANGED <<nrun, npark, orig>>
Step(i) == \/ Access(i) \/ AccessEnd(i) \/ Check(i) \/ Choose(i) \/ Exit(i)
           \/ Park(i, "park", "parked") \/ Parked(i, "parked", "run")
           \/ Begin(i) \/ Suspend(i) \/ Parked(i, "sparked", "suspend") \/ SWait(i) \/ Stop(i)
           \/ Locked(i) \/ Move(i)
Next == \E i \in Th : Step(i)
Spec == Init /\ [][Next]_vars /\ \A i \in Th : WF_vars(Step(i))

\* nobody uses the memory while it is moved
Alone == \A i, j \in Th : pc[i] = "move" /\ i # j => pc[j] \notin {"access", "move"}
Bounded == size <= Max
\* each growth that succeeded returned another size, the sizes from 0 on
OnceEach == /\ \A i, j \in Th : i # j => got[i] \cap got[j] = {}
            /\ UNION {got[i] : i \in Th} = 0..(size - 1)
Counted == npark = Cardinality({i \in Th : pc[i] \in {"parked", "sparked"}})
           /\ nrun = Cardinality({i \in Th : pc[i] # "done"})
Ends == <>(\A i \in Th : pc[i] = "done")
Full == [](( \A i \in Th : pc[i] = "done") => size = (IF Cardinality(Th) * Grows < Max THEN Cardinality(Th) * Grows ELSE Max))
=============================================================================
