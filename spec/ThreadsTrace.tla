---------------------------- MODULE ThreadsTrace ----------------------------
(* Logs of programs with threads, in the order the records were written.     *)
(* Each record has a kind o, the thread k it is about, and numbers a b c:    *)
(*   ask   thread w = a asks for thread k                                    *)
(*   res   the request for k was answered with a                             *)
(*   start k runs its entry point with identifier a, argument b; the         *)
(*         mutable global of its instance is c                               *)
(*   end   k is about to return or to leave; its global is c                 *)
(*   quit  k is about to exit (b = 0) or trap (b = 1), with code a           *)
(* z = 1 marks records written only seconds after everything else is done.   *)
(* TLC looks for an execution of Threads that explains log and outcome; the  *)
(* moments identifiers are given out, freed, and exits take effect are not   *)
(* in the log.                                                               *)
EXTENDS Threads, Sequences, SequencesExt, TLC, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(2, Traces)
ASSUME TLCSet(1, {})
VARIABLES t, l
vars == <<t, l, st, tid, qo, out>>
T == TLCGet(2)[t]
TK == 0..15
Init == /\ t \in 1..Len(TLCGet(2)) /\ l = 1 /\ ThreadsInit
More == l <= Len(T.v)
R == T.v[l]
Fails == {i \in 1..(l - 1) : T.v[i].o = "res" /\ T.v[i].a <= 0}

\* eager: nothing is lost by freeing an identifier at once
Leaving == {k \in Ks : st[k] = "leave"}

Log ==
    /\ More /\ l' = l + 1 /\ UNCHANGED t
    /\ (R.z = 1 => \A k \in Ks : st[k] # "quit")
    /\ CASE R.o = "ask" -> Ask(R.a, R.k)
         [] R.o = "res" /\ R.a <= 0 -> T.fk[R.k + 1] # 0 /\ Refuse(R.k)
         [] R.o = "res" /\ st[R.k] # "ask" ->
              /\ T.fk[R.k + 1] # 1 /\ st[R.k] \in Up \cup {"dead"} /\ tid[R.k] = R.a
              /\ UNCHANGED tvars
         [] R.o = "res" -> T.fk[R.k + 1] # 1 /\ Create(R.k, R.a)
         [] R.o = "start" /\ st[R.k] = "ask" ->
              /\ T.fk[R.k + 1] # 1 /\ R.b = T.arg[R.k + 1] /\ R.c = 0
              /\ Free(R.a)
              /\ st' = [st EXCEPT ![R.k] = "run"] /\ tid' = [tid EXCEPT ![R.k] = R.a]
              /\ UNCHANGED <<qo, out>>
         [] R.o = "start" -> /\ R.b = T.arg[R.k + 1] /\ R.c = 0 /\ tid[R.k] = R.a
                             /\ Enter(R.k)
         [] R.o = "end" -> R.c = T.glob[R.k + 1] /\ Leave(R.k)
         [] R.o = "quit" -> Announce(R.k, IF R.b = 0 THEN Exit(R.a) ELSE Trap(R.a))
         [] OTHER -> FALSE
Hidden == UNCHANGED <<t, l>> /\ \E k \in Ks : Quit(k) \/ (k = 0 /\ Gone(k))
Next == IF \E k \in Leaving : k # 0
        THEN LET k == CHOOSE k \in Leaving : k # 0 IN Gone(k) /\ UNCHANGED <<t, l>>
        ELSE Log \/ Hidden
Spec == Init /\ [][Next]_vars
\* exactly the requests that had to be refused were
Refused == /\ Cardinality({i \in Fails : T.fk[T.v[i].k + 1] = 2}) <= T.fc
           /\ T.all = 1 => Cardinality({i \in Fails : T.fk[T.v[i].k + 1] = 2}) = T.fc
Done == ~More /\ out # None /\ Refused
        /\ out = (IF T.rt = 0 THEN Exit(T.rc) ELSE Trap(T.rc))
Count == /\ t \notin TLCGet(1)
         /\ IF Done THEN TLCSet(1, TLCGet(1) \cup {t}) ELSE TRUE
Sound == TidsDistinct /\ TidsPositive
AllDone == PrintT(<<"explained", TLCGet(1)>>)
=============================================================================
