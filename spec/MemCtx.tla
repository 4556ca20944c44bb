------------------------------- MODULE MemCtx -------------------------------
(* Memory contexts: a tree of accounts with limits.  An allocation is charged *)
(* to its context and to all ancestors, or, if that would exceed any of their *)
(* limits, fails and charges nothing.                                         *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

\* a state: par (0: none), lim, al, pk indexed by context;
\* slot: live allocations <<context, size>> (size 0: free)
RECURSIVE Anc(_, _)
Anc(par, c) == IF c = 0 THEN {} ELSE {c} \cup Anc(par, par[c])
Max2(a, b) == IF a > b THEN a ELSE b

Fresh(par, lim, nslot) ==
    [par |-> par, lim |-> lim, al |-> [c \in DOMAIN par |-> 0], pk |-> [c \in DOMAIN par |-> 0],
     slot |-> [i \in 1..nslot |-> <<1, 0>>]]

Room(M, c, d) == \A a \in Anc(M.par, c) : M.lim[a] - M.al[a] >= d
Charge(M, c, d) ==
    [M EXCEPT !.al = [a \in DOMAIN M.al |-> IF a \in Anc(M.par, c) THEN M.al[a] + d ELSE M.al[a]],
              !.pk = [a \in DOMAIN M.pk |-> IF a \in Anc(M.par, c) THEN Max2(M.pk[a], M.al[a] + d)
                                            ELSE M.pk[a]]]

\* operations: <<next state, succeeds>>
Alloc(M, c, i, d) == IF Room(M, c, d)
                     THEN <<[Charge(M, c, d) EXCEPT !.slot[i] = <<c, d>>], TRUE>>
                     ELSE <<M, FALSE>>
Extend(M, i, d) == LET c == M.slot[i][1]  x == d - M.slot[i][2] IN
                   IF Room(M, c, x)
                   THEN <<[Charge(M, c, x) EXCEPT !.slot[i] = <<c, d>>], TRUE>>
                   ELSE <<M, FALSE>>
Shrink(M, i, d) == LET c == M.slot[i][1] IN
                   <<[Charge(M, c, d - M.slot[i][2]) EXCEPT !.slot[i] = <<c, d>>], TRUE>>
Free(M, i) == Shrink(M, i, 0)
SetLimit(M, c, d) == IF d < M.al[c] THEN <<M, FALSE>> ELSE <<[M EXCEPT !.lim[c] = d], TRUE>>

(* properties of a state *)
Below(M, c) == {i \in DOMAIN M.slot : c \in Anc(M.par, M.slot[i][1])}
SumSlots(M, I) == FoldLeft(LAMBDA a, i : IF i \in I THEN a + M.slot[i][2] ELSE a, 0,
                           [i \in 1..Len(M.slot) |-> i])
Exact(M) == \A c \in DOMAIN M.al : M.al[c] = SumSlots(M, Below(M, c))
Limited(M) == \A c \in DOMAIN M.al : M.al[c] <= M.lim[c] /\ M.al[c] <= M.pk[c]
=============================================================================
