------------------------------- MODULE WaitMC -------------------------------
(* How wait and notify are made of a lock and a list of waiters: a wait      *)
(* blocks for short intervals only and looks again after each, and it may    *)
(* be left and entered again at any time while it is not in the list.        *)
(* Checked: what the callers can tell (Shared) holds for every interleaving. *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Waiters, Notifiers, Addr, At, Counts, Finite, w1, w2, w3, w4, n1, n2, n3, a, b
(* At[t]: address of t; Counts[n]: how many notifier n asks for; Finite: the *)
(* waiters with a time limit.  Notifiers store before they notify if they    *)
(* are in Setters.                                                           *)
CONSTANT Setters
MCAt == [i \in {w1, w2, w3, w4, n1, n2, n3} |-> IF i \in {w3, n3} THEN b ELSE a]
MCCounts == [i \in {n1, n2, n3} |-> IF i = n1 THEN 1 ELSE 100]
VARIABLES val, lock, list, woken, pc, res
vars == <<val, lock, list, woken, pc, res>>
Th == Waiters \cup Notifiers
None == 9
Init == /\ val = [z \in Addr |-> 0] /\ lock = {} /\ list = [z \in Addr |-> <<>>]
        /\ woken = [w \in Waiters |-> FALSE]
        /\ pc = [i \in Th |-> IF i \in Setters THEN "store" ELSE "start"]
        /\ res = [i \in Th |-> None]
Go(i, x) == pc' = [pc EXCEPT ![i] = x]
Remove(s, w) == SelectSeq(s, LAMBDA y : y # w)
(* waiters *)
Lock(i) == /\ pc[i] = "start" /\ lock = {} /\ lock' = {i} /\ Go(i, "look")
           /\ UNCHANGED <<val, list, woken, res>>
Differs(w) == /\ w \in Waiters /\ pc[w] = "look" /\ val[At[w]] # 0
              /\ res' = [res EXCEPT ![w] = 1] /\ lock' = {} /\ Go(w, "done")
              /\ UNCHANGED <<val, list, woken>>
Restart(w) == /\ w \in Waiters /\ pc[w] = "look" /\ val[At[w]] = 0
              /\ lock' = {} /\ Go(w, "start") /\ UNCHANGED <<val, list, woken, res>>
Block(w) == /\ w \in Waiters /\ pc[w] = "look" /\ val[At[w]] = 0
            /\ list' = [list EXCEPT ![At[w]] = Append(@, w)]
            /\ lock' = {} /\ Go(w, "blocked") /\ UNCHANGED <<val, woken, res>>
Woken(w) == /\ w \in Waiters /\ pc[w] = "blocked" /\ lock = {} /\ woken[w]
            /\ res' = [res EXCEPT ![w] = 0] /\ Go(w, "done") /\ UNCHANGED <<val, lock, list, woken>>
Interval(w) == /\ w \in Waiters /\ pc[w] = "blocked" /\ lock = {} /\ ~woken[w]
               /\ list' = [list EXCEPT ![At[w]] = Remove(@, w)]
               /\ lock' = {w} /\ Go(w, "look") /\ UNCHANGED <<val, woken, res>>
Timeout(w) == /\ w \in Finite /\ pc[w] = "blocked" /\ lock = {} /\ ~woken[w]
              /\ list' = [list EXCEPT ![At[w]] = Remove(@, w)]
              /\ res' = [res EXCEPT ![w] = 2] /\ Go(w, "done") /\ UNCHANGED <<val, lock, woken>>
(* notifiers *)
Store(n) == /\ n \in Setters /\ pc[n] = "store" /\ val' = [val EXCEPT ![At[n]] = 1]
            /\ Go(n, "start") /\ UNCHANGED <<lock, list, woken, res>>
MinN(x, y) == IF x < y THEN x ELSE y
Wake(n) == /\ n \in Notifiers /\ pc[n] = "look"
           /\ LET q == list[At[n]]  k == MinN(Counts[n], Len(q)) IN
              /\ woken' = [w \in Waiters |-> woken[w] \/ \E j \in 1..k : q[j] = w]
              /\ list' = [list EXCEPT ![At[n]] = SubSeq(q, k + 1, Len(q))]
              /\ res' = [res EXCEPT ![n] = k]
           /\ lock' = {} /\ Go(n, "done") /\ UNCHANGED val
Next == \E i \in Th : \/ Lock(i) \/ Differs(i) \/ Restart(i) \/ Block(i) \/ Woken(i)
                      \/ Interval(i) \/ Timeout(i) \/ Store(i) \/ Wake(i)
Steps(i) == Lock(i) \/ Differs(i) \/ Block(i) \/ Woken(i) \/ Interval(i) \/ Store(i) \/ Wake(i)
Fair == \A i \in Th : SF_vars(Steps(i))
Spec == Init /\ [][Next]_vars /\ Fair

Done(i) == pc[i] = "done"
(* what callers can tell *)
SumNotified == LET S == {n \in Notifiers : Done(n)}
                   f[X \in SUBSET S] == IF X = {} THEN 0 ELSE LET x == CHOOSE x \in X : TRUE IN res[x] + f[X \ {x}]
               IN f[S]
Counted == SumNotified = Cardinality({w \in Waiters : woken[w]})
Zero == \A w \in Waiters : Done(w) => (res[w] = 0 <=> woken[w])
AtMost == \A n \in Notifiers : Done(n) => res[n] <= Counts[n]
Listed == \A z \in Addr : \A i \in 1..Len(list[z]) :
             LET w == list[z][i] IN /\ pc[w] = "blocked" /\ ~woken[w] /\ At[w] = z
                                    /\ \A j \in 1..Len(list[z]) : list[z][j] = w => i = j
NotLost == \A w \in Waiters : pc[w] = "blocked" => woken[w] \/ \E i \in 1..Len(list[At[w]]) : list[At[w]][i] = w
Differ == \A w \in Waiters : Done(w) /\ res[w] = 1 => val[At[w]] # 0
(* a woken wait returns; a wait whose word is changed, then notified, returns *)
Return == \A w \in Waiters : woken[w] ~> Done(w)
Served == \A w \in Waiters : (\E n \in Setters : At[n] = At[w]) => <>Done(w)
=============================================================================
