---------------------------- MODULE SharedTrace -----------------------------
(* Results of threads that ran concurrently: each trace has the operations   *)
(* of each thread in program order with their results, the cell before and   *)
(* after, the size before, after and its maximum.  A trace conforms if some  *)
(* order of the operations explains it; TLC searches for one.                *)
(*                                                                           *)
(* An operation that changes nothing and is explained by the current state   *)
(* is taken at once: any order that takes it later can also take it now.     *)
(* (A store is different: its result does not tell where it belongs.)        *)
EXTENDS Shared, TLC, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(2, Traces)
ASSUME TLCSet(1, {})
VARIABLES t, p, c, g, st, at
vars == <<t, p, c, g, st, at>>
T == TLCGet(2)[t]
Th == 1..Len(T.s)
Init == \E k \in 1..Len(Traces) :
        /\ t = k
        /\ p = [i \in 1..Len(TLCGet(2)[k].s) |-> 1]
        /\ c = TLCGet(2)[k].c0 /\ g = TLCGet(2)[k].g0
        /\ st = [i \in 1..Len(TLCGet(2)[k].s) |-> "r"]
        /\ at = [i \in 1..Len(TLCGet(2)[k].s) |-> 0]

More(i) == p[i] <= Len(T.s[i])
O(i) == T.s[i][p[i]]
Num(r) == ToNat(r)

\* thread i's next operation is explained here and changes nothing
Still(i) ==
    /\ More(i)
    /\ LET o == O(i) IN
       IF st[i] = "k" THEN TRUE
       ELSE IF st[i] = "w" THEN FALSE
       ELSE IF o.n = Fence THEN TRUE
       ELSE IF o.n = Size THEN Num(o.r) = g
       ELSE IF o.n = Grow THEN o.r = Failed /\ g + o.x > T.gm
       ELSE IF o.n = Notify THEN Num(o.r) = 0 /\ (o.x = 0 \/ Waiting(st, at, o.a) = {})
       ELSE IF o.n \in Waits THEN \/ Num(o.r) = 1 /\ ~Equal(c, o)
                                  \/ Num(o.r) = 2 /\ Equal(c, o) /\ o.el >= o.x
       ELSE Group(o.n) # 1 /\ o.r = Result(c, o) /\ After(c, o) = c
Step(i) ==
    /\ More(i) /\ st[i] = "r"
    /\ LET o == O(i) IN
       \/ /\ o.n = Grow /\ o.r # Failed /\ Num(o.r) = g /\ g + o.x <= T.gm
          /\ g' = g + o.x /\ p' = [p EXCEPT ![i] = @ + 1] /\ UNCHANGED <<c, st, at>>
       \/ /\ o.n \in Waits /\ Num(o.r) = 0 /\ Equal(c, o)
          /\ st' = [st EXCEPT ![i] = "w"] /\ at' = [at EXCEPT ![i] = o.a]
          /\ UNCHANGED <<c, g, p>>
       \/ /\ o.n = Notify /\ Num(o.r) > 0
          /\ Num(o.r) = Min2(o.x, Cardinality(Waiting(st, at, o.a)))
          /\ \E K \in SUBSET Waiting(st, at, o.a) :
                /\ Cardinality(K) = Num(o.r)
                /\ st' = [j \in DOMAIN st |-> IF j \in K THEN "k" ELSE st[j]]
          /\ p' = [p EXCEPT ![i] = @ + 1] /\ UNCHANGED <<c, g, at>>
       \/ /\ o.n \in 16..78 /\ o.r = Result(c, o)
          /\ c' = After(c, o) /\ p' = [p EXCEPT ![i] = @ + 1] /\ UNCHANGED <<g, st, at>>
Quiet == {i \in Th : Still(i)}
Next == /\ UNCHANGED t
        /\ IF Quiet # {}
           THEN LET i == CHOOSE i \in Quiet : \A j \in Quiet : i <= j IN
                /\ p' = [p EXCEPT ![i] = @ + 1] /\ st' = [st EXCEPT ![i] = "r"]
                /\ UNCHANGED <<c, g, at>>
           ELSE \E i \in Th : Step(i)
Spec == Init /\ [][Next]_vars
Done == (\A i \in Th : ~More(i)) /\ c = T.c1 /\ g = T.g1
Count == /\ t \notin TLCGet(1)
         /\ IF Done THEN TLCSet(1, TLCGet(1) \cup {t}) ELSE TRUE
\* sizes and waits stay in their bounds on every explored path
Sound == g <= T.gm /\ \A i \in Th : st[i] = "w" => More(i) /\ O(i).n \in Waits
AllDone == PrintT(<<"explained", TLCGet(1)>>)
=============================================================================
