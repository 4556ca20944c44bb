------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* What a program started by the command line tool is given: arguments,    *)
(* environment and directories; which command lines are refused.           *)
(*                                                                         *)
(* A trace has the options opts in order (o name, a bytes of the operand), *)
(* the path of the module, its arguments args, the directories that exist  *)
(* on the host (n name, id what its file "id" contains), and what the      *)
(* program saw: the memory it filled through the calls.  spin: the program *)
(* never ends; ms: how long it took.                                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, TLCExt, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, 0)
VARIABLES t, l, ph
vars == <<t, l, ph>>
T == Traces[t]

\* the part after the last slash
Base(p) == LET s == {i \in DOMAIN p : p[i] = 47}
           IN  IF s = {} THEN p ELSE SubSeq(p, (CHOOSE i \in s : \A j \in s : j <= i) + 1, Len(p))
\* the place of the first "::", 0 if there is none
Colons(s) == LET c == {i \in 1..(Len(s) - 1) : s[i] = 58 /\ s[i + 1] = 58}
             IN  IF c = {} THEN 0 ELSE CHOOSE i \in c : \A j \in c : i <= j
Host(s) == IF Colons(s) = 0 THEN s ELSE SubSeq(s, 1, Colons(s) - 1)
Guest(s) == IF Colons(s) = 0 THEN s ELSE SubSeq(s, Colons(s) + 2, Len(s))
Digits(s) == s # <<>> /\ \A i \in DOMAIN s : s[i] \in 48..57

Hex(s) == Len(s) > 2 /\ s[1] = 48 /\ s[2] = 120 /\ \A i \in 3..Len(s) : s[i] \in (48..57) \cup (97..102)

WasiBefore(i) == \E j \in 1..(i - 1) : T.opts[j].o = "wasi"
\* an option that ends the tool
Refused(i) == LET x == T.opts[i]
              IN  CASE x.o \in {"env", "dir"} -> ~WasiBefore(i)
                    [] x.o \in {"frames", "cells"} -> ~Digits(x.a)
                    [] x.o = "mem" -> ~(Digits(x.a) \/ Hex(x.a)) \/ Len(x.a) > 18
                    [] x.o = "bad" -> TRUE
                    [] x.o = "wasi" -> WasiBefore(i)        \* only once
                    [] OTHER -> FALSE
\* there is no room for the program
Little(a) == Digits(a) /\ Len(a) < 6 /\ FoldLeft(LAMBDA n, d : 10 * n + d - 48, 0, a) < 28672
Wasi == \E i \in DOMAIN T.opts : T.opts[i].o = "wasi"
Works == /\ \A i \in DOMAIN T.opts : ~Refused(i)
         /\ Wasi        \* the program cannot be linked otherwise
         /\ \A i \in DOMAIN T.opts : T.opts[i].o = "mem" => ~Little(T.opts[i].a)
         /\ T.path # <<>> /\ Last(T.path) # 47
Operands(o) == LET s == SelectSeq(T.opts, LAMBDA x : x.o = o) IN [i \in DOMAIN s |-> s[i].a]
Args == <<Base(T.path)>> \o T.args
Envs == Operands("env")
Dirs == Operands("dir")

(***************************************************************************)
(* The memory of the program: 238 where nothing was written                *)
(***************************************************************************)
W32(m, a) == m[a + 1] + 256 * m[a + 2] + 65536 * m[a + 3] + (m[a + 4] % 128) * 16777216
Bytes(m, a, n) == SubSeq(m, a + 1, a + n)
Untouched(m, a, b) == \A i \in (a + 1)..b : m[i] = 238
Total(s) == FoldLeft(LAMBDA n, x : n + Len(x) + 1, 0, s)
\* a list of texts: count and size at c, pointers at p, texts at b .. e
Texts(m, s, c, p, b, e) ==
    LET ptr(i) == W32(m, p + 4 * (i - 1))
    IN  /\ W32(m, c) = Len(s) /\ W32(m, c + 4) = Total(s)
        /\ \A i \in DOMAIN s :
             /\ ptr(i) >= b /\ ptr(i) + Len(s[i]) + 1 <= b + Total(s)
             /\ Bytes(m, ptr(i), Len(s[i]) + 1) = Append(s[i], 0)
             /\ \A j \in DOMAIN s : j # i => (ptr(j) + Len(s[j]) + 1 <= ptr(i) \/ ptr(i) + Len(s[i]) + 1 <= ptr(j))
        /\ Untouched(m, p + 4 * Len(s), p + 256)
        /\ Untouched(m, b + Total(s), e)
\* directory i: results of the calls at 768 + 32 (i - 1)
Dir(m, i) ==
    LET c == 768 + 32 * (i - 1)
        n == 20480 + 512 * (i - 1)
        r == 24576 + 64 * (i - 1)
        g == Guest(Dirs[i])
        h == {k \in DOMAIN T.host : T.host[k].n = Host(Dirs[i])}
    IN  /\ W32(m, c) = 0                                 \* fd_prestat_get
        /\ m[c + 9] = 0 /\ W32(m, c + 12) = Len(g)       \* a directory with a name of this length
        /\ W32(m, c + 16) = 0 /\ Bytes(m, n, Len(g)) = g /\ Untouched(m, n + Len(g), n + 512)
        /\ W32(m, c + 20) = IF h = {} THEN 44 ELSE 0     \* path_open
        /\ h # {} => Bytes(m, r, 8) = T.host[CHOOSE k \in h : TRUE].id
NoDir(m, i) == W32(m, 768 + 32 * (i - 1)) = 8
Seen(m) == /\ Len(m) = 28672
           /\ Texts(m, Args, 0, 256, 4096, 12288)
           /\ Texts(m, Envs, 8, 512, 12288, 20480)
           /\ \A i \in DOMAIN Dirs : Dir(m, i)
           /\ NoDir(m, Len(Dirs) + 1)
\* a program that never ends is ended by the time limit, not before
Time == LET d == Operands("time")[1] IN FoldLeft(LAMBDA n, x : 10 * n + x - 48, 0, d)
Fits == IF Works /\ T.spin = 1 THEN T.status = 1 /\ T.mem = <<>> /\ T.ms >= Time
        ELSE IF Works THEN T.status = T.code /\ Seen(T.mem) ELSE T.status = 1 /\ T.mem = <<>>

Init == t \in 1..Len(Traces) /\ l = 1 /\ ph = "run"
Step == /\ ph = "run" /\ ph' = (IF Fits THEN "done" ELSE "bad") /\ UNCHANGED <<t, l>>
Spec == Init /\ [][Step]_vars
Conforms == ph # "bad"
Sound == TRUE
Count == IF ph = "done" THEN TLCSet(1, TLCGet(1) + 1) ELSE TRUE
AllDone == PrintT(<<"finished", TLCGet(1)>>)
=============================================================================
