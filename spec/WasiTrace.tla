----------------------------- MODULE WasiTrace ------------------------------
(* Recorded sessions of a guest with the WASI implementation.  TLC looks for *)
(* a behaviour of Wasi that explains each session; where none exists, the    *)
(* furthest event that could be reached is reported.                         *)
EXTENDS Wasi, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(2, Traces)
ASSUME TLCSet(1, {})
ASSUME TLCSet(3, [i \in 1..Len(TLCGet(2)) |-> 0])
ASSUME TLCSet(4, 0)
VARIABLES t, l, st
vars == <<t, l, st>>
T == TLCGet(2)[t]

Fun(ps) == FoldLeft(LAMBDA f, x : (x[1] :> x[2]) @@ f, <<>>, ps)
Node0(n) == CASE n.k = "d" -> [Dir(n.p) EXCEPT !.e = Fun(n.e)]
              [] n.k = "f" -> File(n.c)
              [] n.k = "l" -> Link(n.c)
Fd0(f) == [Fd(f.k, f.i) EXCEPT !.rd = f.rd = 1, !.wr = f.wr = 1, !.ap = f.ap = 1,
                               !.nm = f.nm, !.hp = f.hp]
First(x) == [loose |-> FALSE,
             ino |-> [i \in 1..Len(x.ino) |-> Node0(x.ino[i])],
             nx |-> Len(x.ino) + 1, root |-> 1, seen |-> <<>>,
             fd |-> Fun([i \in 1..Len(x.fd) |-> <<x.fd[i].n, Fd0(x.fd[i])>>]),
             str |-> Fun([i \in 1..Len(x.str) |-> <<x.str[i], IF x.str[i] \in ToSet(x.cap) THEN [Stream EXCEPT !.cap = 4096]
                                                                         ELSE Stream>>]),
             args |-> x.args, envs |-> x.envs]

Init == t \in 1..Len(TLCGet(2)) /\ l = 1 /\ st = TLCEval(First(T))
\* what happens after an event outside of the specification is not judged
After(s, e) == IF s.loose THEN (IF e.v = "end" THEN End(s, e) ELSE {s}) ELSE Step(s, e)
Next == /\ l <= Len(T.v)
        /\ st' \in After(st, T.v[l])
        /\ l' = l + 1
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars

Done == l > Len(T.v)
Count == /\ t \notin TLCGet(1)
         /\ IF TLCGet(3)[t] < l THEN TLCSet(3, [TLCGet(3) EXCEPT ![t] = l]) ELSE TRUE
         /\ IF Done THEN TLCSet(1, TLCGet(1) \cup {t}) /\ (IF st.loose THEN TLCSet(4, TLCGet(4) + 1) ELSE TRUE)
            ELSE TRUE

\* a directory has one place, and every entry leads to a node
Sound == st.loose \/
    /\ \A d \in DOMAIN st.ino : st.ino[d].k = "d" =>
           \A nm \in DOMAIN st.ino[d].e :
               LET i == st.ino[d].e[nm]
               IN  /\ i \in DOMAIN st.ino
                   /\ nm \notin {<<>>, DOT, DOTDOT} /\ SLASH \notin {nm[j] : j \in DOMAIN nm}
                   /\ (st.ino[i].k = "d" => st.ino[i].p = d)
    /\ \A f \in DOMAIN st.fd : st.fd[f].off >= 0
AllDone == /\ PrintT(<<"explained", TLCGet(1)>>)
           /\ PrintT(<<"reached", TLCGet(3)>>)
           /\ PrintT(<<"loose", TLCGet(4)>>)
=============================================================================
