------------------------------- MODULE FdConc -------------------------------
(* Descriptors used by several threads at once.  Each trace has the calls of *)
(* each thread in program order: what was called, the error and the value    *)
(* it gave, and two tickets drawn before and after it.  A trace conforms if  *)
(* the calls can be put into one order that respects the tickets and that is *)
(* right for one thread; TLC searches for one.                               *)
(*                                                                           *)
(*   tab   descriptor -> open file, 0 none                                   *)
(*   of    open files: which file, and the position                          *)
(*   sz    sizes of the files; file 1 is the standard input                  *)
(*                                                                           *)
(* A call that changes nothing and is explained by the current state is      *)
(* taken at once: any order that takes it later can also take it now.        *)
(*                                                                           *)
(* A call finds its open file first and uses it afterwards (bnd); renumber   *)
(* may move it to another descriptor in between.  Close waits for the calls  *)
(* that use the file.                                                        *)
EXTENDS Naturals, Sequences, TLC, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(2, Traces)
ASSUME TLCSet(1, {})
VARIABLES t, p, tab, of, sz, bnd
vars == <<t, p, tab, of, sz, bnd>>
T == TLCGet(2)[t]
Th == 1..Len(T.s)
EBADF == 8
ESPIPE == 70
Fds == 0..40

Init == \E k \in 1..Len(Traces) :
        /\ t = k
        /\ p = [i \in 1..Len(TLCGet(2)[k].s) |-> 1]
        /\ bnd = [i \in 1..Len(TLCGet(2)[k].s) |-> 0]
        /\ tab = [f \in Fds |-> IF f = 0 THEN 1 ELSE 0]
        /\ of = << [f |-> 1, o |-> 0] >>
        /\ sz = [f \in 1..6 |-> IF f = 1 THEN TLCGet(2)[k].n ELSE 0]

More(i) == p[i] <= Len(T.s[i])
O(i) == T.s[i][p[i]]
\* nothing that ended before this call began is still to come
Now(i) == More(i) /\ \A j \in Th : More(j) => O(j).b > O(i).a

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Open(f) == tab[f] # 0
\* the open file of the call of thread i
G(i) == IF bnd[i] # 0 THEN bnd[i] ELSE tab[O(i).x]
Pipe(g) == of[g].f = 1
Left(g) == IF sz[of[g].f] > of[g].o THEN sz[of[g].f] - of[g].o ELSE 0

\* explained here, and changes nothing (wherever it is explained)
Still(i) ==
  /\ Now(i)
  /\ LET c == O(i)
         g == G(i) IN
     IF c.k = "open" THEN FALSE
     ELSE IF g = 0 THEN c.e = EBADF
     ELSE CASE c.k = "renumber" -> IF ~Open(c.y) THEN c.e = EBADF ELSE c.x = c.y /\ c.e = 0
            [] c.k \in {"tell", "seek"} /\ Pipe(g) -> c.e = ESPIPE
            [] c.k = "write" /\ Pipe(g) -> c.e = EBADF
            [] c.k = "tell" -> c.e = 0 /\ c.v = of[g].o
            [] c.k = "size" -> c.e = 0 /\ (Pipe(g) \/ c.v = sz[of[g].f])
            [] c.k = "read" -> c.e = 0 /\ c.v = 0 /\ (Left(g) = 0 \/ c.y = 0)
            [] OTHER -> FALSE
\* needed only where the file is about to move
Look(i) ==
  /\ Now(i) /\ bnd[i] = 0
  /\ O(i).k \in {"tell", "seek", "size", "read", "write"} /\ Open(O(i).x)
  /\ \E j \in Th : More(j) /\ O(j).k = "renumber" /\ O(j).x = O(i).x /\ O(j).e = 0
  /\ bnd' = [bnd EXCEPT ![i] = tab[O(i).x]]
  /\ UNCHANGED <<p, tab, of, sz>>
\* calls that use the file
Users(g) == {i \in Th : bnd[i] = g}
Step(i) ==
  /\ Now(i)
  /\ p' = [p EXCEPT ![i] = @ + 1]
  /\ bnd' = [bnd EXCEPT ![i] = 0]
  /\ LET c == O(i)
         g == G(i) IN
     IF c.k = "open" THEN
          /\ c.e = 0 /\ ~Open(c.v)
          /\ of' = Append(of, [f |-> c.x, o |-> 0])
          /\ tab' = [tab EXCEPT ![c.v] = Len(of) + 1]
          /\ UNCHANGED sz
     ELSE /\ g # 0 /\ c.e = 0
          /\ CASE c.k = "close" -> Users(g) = {} /\ tab' = [tab EXCEPT ![c.x] = 0] /\ UNCHANGED <<of, sz>>
               [] c.k = "renumber" -> /\ Open(c.y) /\ c.x # c.y /\ Users(tab[c.y]) = {}
                                      /\ tab' = [tab EXCEPT ![c.y] = tab[c.x], ![c.x] = 0]
                                      /\ UNCHANGED <<of, sz>>
               [] c.k = "seek" -> /\ ~Pipe(g) /\ c.v = c.y
                                  /\ of' = [of EXCEPT ![g].o = c.y] /\ UNCHANGED <<tab, sz>>
               [] c.k = "write" -> /\ ~Pipe(g) /\ c.v = c.y
                                   /\ of' = [of EXCEPT ![g].o = @ + c.y]
                                   /\ sz' = [sz EXCEPT ![of[g].f] = Max2(@, IF c.y = 0 THEN 0 ELSE of[g].o + c.y)]
                                   /\ UNCHANGED tab
               [] c.k = "read" -> /\ c.v > 0 /\ c.v = Min2(c.y, Left(g))
                                  /\ of' = [of EXCEPT ![g].o = @ + c.v] /\ UNCHANGED <<tab, sz>>
               [] OTHER -> FALSE
Quiet == {i \in Th : Still(i)}
Next == /\ UNCHANGED t
        /\ IF Quiet # {}
           THEN LET i == CHOOSE i \in Quiet : \A j \in Quiet : i <= j IN
                p' = [p EXCEPT ![i] = @ + 1] /\ bnd' = [bnd EXCEPT ![i] = 0] /\ UNCHANGED <<tab, of, sz>>
           ELSE \E i \in Th : Step(i) \/ Look(i)
Spec == Init /\ [][Next]_vars
Done == \A i \in Th : ~More(i)
Count == /\ t \notin TLCGet(1)
         /\ IF Done THEN TLCSet(1, TLCGet(1) \cup {t}) ELSE TRUE
\* no open file has two descriptors
Sound == \A f, g \in Fds : f # g /\ tab[f] # 0 => tab[f] # tab[g]
AllDone == PrintT(<<"explained", TLCGet(1)>>)
=============================================================================
