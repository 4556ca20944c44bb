-------------------------------- MODULE Repl --------------------------------
(***************************************************************************)
(* The command line tool: options and REPL commands over several modules.  *)
(*                                                                         *)
(* Modules are taken from a family whose functions have simple meanings:   *)
(* they return their parameters or constants, change a counter, trap,      *)
(* exit, or call an imported function.  What is specified here is which    *)
(* module a command acts on, how its arguments are converted, what is      *)
(* printed, and what stays after a failure.                                *)
(*                                                                         *)
(* Texts are sequences of bytes.  Values are little endian bytes;          *)
(* references are <<>> (null) or 8 bytes.                                  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, FiniteSets, TLC, Bitwise

I32 == 127
I64 == 126
F32 == 125
F64 == 124
V128 == 123
FUNCREF == 112
EXTERNREF == 111

(***************************************************************************)
(* Texts and numbers                                                       *)
(***************************************************************************)
Zeros(n) == [i \in 1..n |-> 0]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]

\* v * m + a for the little endian v; the last element is what is left over
MulAdd(v, m, a) ==
    FoldLeft(LAMBDA acc, x : <<Append(acc[1], (x * m + acc[2]) % 256), (x * m + acc[2]) \div 256>>, <<<<>>, a>>, v)
Add8(v, w) ==
    FoldLeft(LAMBDA acc, i : <<Append(acc[1], (v[i] + w[i] + acc[2]) % 256), (v[i] + w[i] + acc[2]) \div 256>>,
             <<<<>>, 0>>, [i \in 1..8 |-> i])[1]
Neg8(v) == Add8([i \in 1..8 |-> 255 - v[i]], <<1, 0, 0, 0, 0, 0, 0, 0>>)

DigitOf(c) == CASE c \in 48..57 -> c - 48
                [] c \in 97..102 -> c - 87
                [] c \in 65..70 -> c - 55
                [] OTHER -> 99
\* the number of a text of digits: <<ok, 8 bytes>>
Number(s, base) ==
    IF s = <<>> \/ \E i \in DOMAIN s : DigitOf(s[i]) >= base THEN <<FALSE, Zeros(8)>>
    ELSE FoldLeft(LAMBDA acc, c : LET x == MulAdd(acc[2], base, DigitOf(c))
                                  IN  <<acc[1] /\ x[2] = 0, x[1]>>, <<TRUE, Zeros(8)>>, s)

Divide10(v) ==      \* <<quotient, remainder>>
    LET q == FoldLeft(LAMBDA acc, x : <<Append(acc[1], (acc[2] * 256 + x) \div 10), (acc[2] * 256 + x) % 10>>,
                      <<<<>>, 0>>, Rev(v))
    IN  <<Rev(q[1]), q[2]>>
RECURSIVE Dec(_)
Dec(v) == LET q == Divide10(v)
          IN  IF q[1] = Zeros(Len(v)) THEN <<48 + q[2]>> ELSE Append(Dec(q[1]), 48 + q[2])
HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(v) == FoldLeft(LAMBDA s, x : s \o <<HexDigit(x \div 16), HexDigit(x % 16)>>, <<>>, Rev(v))

\* the numbers that a literal may be taken for, <<>> for refused
Literal(s) ==
    LET neg == s[1] = 45
        b == IF s[1] \in {43, 45} THEN Tail(s) ELSE s
        hex == Len(b) > 1 /\ b[1] = 48 /\ b[2] \in {120, 88}
        n == IF hex THEN Number(SubSeq(b, 3, Len(b)), 16) ELSE Number(b, 10)
    IN  IF ~n[1] THEN {<<>>}
        ELSE IF neg THEN {<<>>, Neg8(n[2])}
        ELSE IF s[1] = 43 THEN {<<>>, n[2]}
        \* a leading zero
        ELSE IF ~hex /\ Len(b) > 1 /\ b[1] = 48
             THEN {<<>>, n[2]} \cup (IF Number(b, 8)[1] THEN {Number(b, 8)[2]} ELSE {})
        ELSE {n[2]}
\* to 32 bits: a negative one may be the two's complement
To32(s) == {IF v = <<>> THEN <<>>
            ELSE IF SubSeq(v, 5, 8) = Zeros(4) THEN SubSeq(v, 1, 4)
            ELSE IF s[1] = 45 /\ SubSeq(v, 5, 8) = <<255, 255, 255, 255>> THEN SubSeq(v, 1, 4)
            ELSE <<>> : v \in Literal(s) \cup (IF s[1] = 45 THEN {<<>>} ELSE {})}
Byte16(s) == [i \in 1..16 |-> 16 * DigitOf(s[33 - 2 * i]) + DigitOf(s[34 - 2 * i])]
NULL == <<110, 117, 108, 108>>
\* values of an argument; refused ones are <<FALSE>>
Arg(t, s) ==
    CASE t \in {I32, F32} -> {IF v = <<>> THEN <<FALSE>> ELSE <<TRUE, v>> : v \in To32(s)}
      [] t \in {I64, F64} -> {IF v = <<>> THEN <<FALSE>> ELSE <<TRUE, v>> : v \in Literal(s)}
      [] t = V128 -> IF Len(s) = 32 /\ \A i \in 1..32 : DigitOf(s[i]) < 16 THEN {<<TRUE, Byte16(s)>>} ELSE {<<FALSE>>}
      [] OTHER -> IF s = NULL THEN {<<TRUE, <<>> >>}
                  ELSE {IF v = <<>> THEN <<FALSE>> ELSE <<TRUE, v>> : v \in Literal(s)}

Colon(t) == CASE t = I32 -> <<58, 105, 51, 50>>
              [] t = I64 -> <<58, 105, 54, 52>>
              [] t = F32 -> <<58, 102, 51, 50>>
              [] t = F64 -> <<58, 102, 54, 52>>
              [] t = V128 -> <<58, 118, 49, 50, 56>>
              [] t = FUNCREF -> <<58, 102, 117, 110, 99, 114, 101, 102>>
              [] t = EXTERNREF -> <<58, 101, 120, 116, 101, 114, 110, 114, 101, 102>>
Show(t, v) == (CASE t = V128 -> Hex(v)
                 [] v = <<>> -> NULL
                 [] OTHER -> Dec(v)) \o Colon(t)
RESULT == <<82, 101, 115, 117, 108, 116, 58, 32>>       \* "Result: "
EMPTY == <<60, 69, 109, 112, 116, 121, 32, 83, 116, 97, 99, 107, 62>>
ERROR == <<69, 114, 114, 111, 114, 58, 32>>             \* "Error: "
TRAPPED == ERROR \o <<91, 116, 114, 97, 112, 93, 32>>   \* "[trap] "
FAILED == ERROR \o <<99, 111, 109, 109, 97, 110, 100, 32>>  \* "command "
ResultLine(ts, vs) ==
    RESULT \o (IF ts = <<>> THEN EMPTY
               ELSE FoldLeft(LAMBDA s, i : s \o (IF i = 1 THEN <<>> ELSE <<44, 32>>) \o Show(ts[i], vs[i]),
                             <<>>, [i \in 1..Len(ts) |-> i]))

\* an escaped name: <<ok, bytes>>
RECURSIVE Unescape(_, _, _)
Unescape(s, quote, out) ==
    IF s = <<>> THEN <<~quote, out>>
    ELSE IF s[1] = 34 THEN Unescape(Tail(s), ~quote, out)
    ELSE IF s[1] # 92 THEN Unescape(Tail(s), quote, Append(out, s[1]))
    ELSE IF Len(s) >= 4 /\ s[2] = 120 /\ DigitOf(s[3]) < 16 /\ DigitOf(s[4]) < 16
         THEN Unescape(SubSeq(s, 5, Len(s)), quote, Append(out, 16 * DigitOf(s[3]) + DigitOf(s[4])))
         ELSE <<FALSE, <<>> >>

(***************************************************************************)
(* Instances: m module, ctr the cell of its counter, fi what its function  *)
(* imports are bound to (<<instance, function>>, <<0, 0>> for nothing)     *)
(***************************************************************************)
Mod(st, i) == st.lib[st.inst[i].m]
Outcome(st, k, vs, ids, code) == [st |-> st, k |-> k, vs |-> vs, ids |-> ids, code |-> code]
ONE == <<1, 0, 0, 0, 0, 0, 0, 0>>
RECURSIVE Call(_, _, _, _)
Call(st, i, f, a) ==
    LET fn == Mod(st, i).fns[f]
        c == st.inst[i].ctr
        bump(k) == [st EXCEPT !.cell[c] = Add8(@, k)]
    IN  CASE fn.k = "id" -> Outcome(st, "ret", a, {}, 0)
          [] fn.k = "const" -> Outcome(st, "ret", fn.vs, {}, 0)
          [] fn.k = "inc" -> LET s2 == bump(a[1] \o Zeros(4)) IN Outcome(s2, "ret", <<s2.cell[c]>>, {}, 0)
          [] fn.k = "get" -> Outcome(st, "ret", <<st.cell[c]>>, {}, 0)
          [] fn.k = "trap" -> Outcome(bump(ONE), "trap", <<>>, ToSet(fn.ids), 0)
          [] fn.k = "exit" -> IF st.wasi THEN Outcome(bump(ONE), "exit", <<>>, {}, fn.code)
                              ELSE Outcome(bump(ONE), "trap", <<>>, {22}, 0)
          [] fn.k = "imp" -> LET g == st.inst[i].fi[fn.j]
                             IN  IF g = <<0, 0>> THEN Outcome(bump(ONE), "trap", <<>>, {22}, 0)
                                 ELSE Call(bump(ONE), g[1], g[2], a)

(***************************************************************************)
(* Commands.  Each has a set of possible effects: the next state, what is  *)
(* printed as result, the traps reported, whether it fails, and the exit   *)
(* code of the program (-1: it did not exit)                               *)
(***************************************************************************)
Eff(st, res, ids, err, code) == [st |-> st, res |-> res, ids |-> ids, err |-> err, code |-> code]
Bad(st) == {Eff(st, <<>>, {}, TRUE, -1)}
Good(st) == {Eff(st, <<>>, {}, FALSE, -1)}

Targets(st, e) == IF st.mods = <<>> THEN {}
                  ELSE IF e.has = 0 THEN {st.mods[Len(st.mods)].i}
                  ELSE {st.mods[k].i : k \in {k \in DOMAIN st.mods : st.mods[k].has = 1 /\ st.mods[k].nm = e.nm}}
\* a command on a module
On(st, e, op(_)) == IF Targets(st, e) = {} THEN Bad(st) ELSE UNION {op(i) : i \in Targets(st, e)}

FnNamed(m, nm) == {f \in DOMAIN m.fns : m.fns[f].ex = 1 /\ m.fns[f].nm = nm}
GlNamed(m, nm) == {g \in DOMAIN m.gls : m.gls[g].ex = 1 /\ m.gls[g].nm = nm}
CtrNamed(m, nm) == m.cex = 1 /\ m.cnm = nm
Exports(m, nm) == FnNamed(m, nm) # {} \/ GlNamed(m, nm) # {} \/ CtrNamed(m, nm)
Only(S) == CHOOSE x \in S : TRUE

\* what an import may be bound to; <<>> is failure.  The last registered
\* module of a name comes first.
Binding(st, im) ==
    LET named == SelectSeq(st.reg, LAMBDA r : r.nm = im.m)
        having == SelectSeq(named, LAMBDA r : Exports(Mod(st, r.i), im.n))
        fits(r) == LET m == Mod(st, r.i)
                   IN  IF im.k = "f" THEN \E f \in FnNamed(m, im.n) : m.fns[f].p = im.p /\ m.fns[f].r = im.r
                       ELSE CtrNamed(m, im.n)
        bound(r) == IF im.k = "f" THEN <<r.i, Only(FnNamed(Mod(st, r.i), im.n))>>
                    ELSE <<st.inst[r.i].ctr, 0>>
        open == IF st.au /\ im.k = "f" THEN {<<0, 0>>} ELSE {<<>>}
        older == {bound(having[k]) : k \in {k \in DOMAIN having : fits(having[k])}}
    IN  IF im.k = "x" THEN (IF st.wasi THEN {<<0, 0>>} ELSE open \cup (IF st.au THEN {<<0, 0>>} ELSE {}))
        ELSE IF having = <<>> THEN open
        ELSE IF ~fits(having[1]) THEN {<<>>} \cup open \cup older
        ELSE {bound(having[1])} \cup (IF Exports(Mod(st, named[1].i), im.n) THEN {} ELSE {<<>>})

Bindings(st, ims) == FoldLeft(LAMBDA S, im : {Append(s, x) : s \in S, x \in Binding(st, im)}, {<<>>}, ims)

\* loading the module m; keep: a module whose start function traps stays
LoadMod(st, e, m, keep) ==
    IF m = 0 \/ st.lib[m].ok = 0 THEN Bad(st)
    ELSE LET M == st.lib[m]
             i == Len(st.inst) + 1
             one(b) ==
                 IF <<>> \in ToSet(b) THEN Bad(st)
                 ELSE LET gi == {k \in DOMAIN b : M.imps[k].k = "g"}
                          own == Len(st.cell) + 1
                          c == IF gi # {} THEN b[Only(gi)][1] ELSE own
                          s1 == [st EXCEPT !.inst = Append(@, [m |-> m, ctr |-> c, fi |-> b]),
                                           !.cell = IF gi # {} THEN @ ELSE Append(@, M.cv)]
                          o == IF M.start = 0 THEN Outcome(s1, "ret", <<>>, {}, 0) ELSE Call(s1, i, M.start, <<>>)
                          s2 == [o.st EXCEPT !.mods = Append(@, [has |-> e.has, nm |-> e.nm, i |-> i])]
                      IN  IF o.k = "ret" THEN {Eff(s2, <<>>, {}, FALSE, -1)}
                          \* an exit while the module is started is reported as a trap
                          ELSE LET ids == IF o.k = "exit" THEN {11} ELSE o.ids
                               IN  {Eff(IF keep THEN s2 ELSE o.st, <<>>, ids, ~keep, -1)}
         IN  UNION {one(b) : b \in Bindings(st, M.imps)}

File(st, f) == IF f \in DOMAIN st.files THEN st.files[f] ELSE 0

Invoke(st, e, i, show) ==
    LET u == Unescape(e.tok, FALSE, <<>>)
        m == Mod(st, i)
        fs == FnNamed(m, u[2])
        fn == m.fns[Only(fs)]
        args == FoldLeft(LAMBDA S, k : {Append(s, x) : s \in S, x \in Arg(fn.p[k], e.args[k])},
                         {<<>>}, [k \in 1..Len(fn.p) |-> k])
        run(a) == LET o == Call(st, i, Only(fs), [k \in DOMAIN a |-> a[k][2]])
                  IN  CASE o.k = "ret" -> {Eff(o.st, IF show THEN <<ResultLine(fn.r, o.vs)>> ELSE <<>>, {}, FALSE, -1)}
                        [] o.k = "trap" -> {Eff(o.st, <<>>, o.ids, TRUE, -1)}
                        [] o.k = "exit" -> {Eff(o.st, <<>>, {}, o.code # 0, o.code)}
    IN  IF ~u[1] \/ fs = {} \/ Len(e.args) # Len(fn.p) THEN Bad(st)
        ELSE UNION {IF <<FALSE>> \in ToSet(a) THEN Bad(st) ELSE run(a) : a \in args}

GlobalGet(st, e, i) ==
    LET u == Unescape(e.tok, FALSE, <<>>)
        m == Mod(st, i)
        gs == GlNamed(m, u[2])
    IN  IF ~u[1] THEN Bad(st)
        ELSE IF CtrNamed(m, u[2]) THEN {Eff(st, <<ResultLine(<<I64>>, <<st.cell[st.inst[i].ctr]>>)>>, {}, FALSE, -1)}
        ELSE IF gs # {} THEN {Eff(st, <<ResultLine(<<m.gls[Only(gs)].t>>, <<m.gls[Only(gs)].v>>)>>, {}, FALSE, -1)}
        ELSE Bad(st)

Cmd(st, e, keep) ==
    CASE e.c = "load" -> LoadMod(st, e, File(st, e.f), keep)
      [] e.c = "hex" -> LoadMod(st, e, e.mi, keep)
      [] e.c = "invoke" -> On(st, e, LAMBDA i : Invoke(st, e, i, TRUE))
      [] e.c = "global-get" -> On(st, e, LAMBDA i : GlobalGet(st, e, i))
      [] e.c = "register" -> On(st, e, LAMBDA i : Good([st EXCEPT !.reg = <<[nm |-> e.f, i |-> i]>> \o @]))
      [] e.c = "save" -> On(st, e, LAMBDA i : IF e.w = 0 THEN Bad(st)
                                              ELSE Good([st EXCEPT !.files = (e.f :> st.inst[i].m) @@ @]))
      [] e.c = "init" -> Good([st EXCEPT !.mods = <<>>, !.reg = <<>>, !.wasi = FALSE])
      [] e.c = "junk" -> Good(st)        \* not a command
      [] e.c = "half" -> Bad(st)         \* not a whole one

(***************************************************************************)
(* What is seen                                                            *)
(***************************************************************************)
Starts(l, p) == Len(l) >= Len(p) /\ SubSeq(l, 1, Len(p)) = p
Lines(out, p) == SelectSeq(out, LAMBDA l : Starts(l, p))
Message(id) ==
    CASE id = 1 -> "integer divide by zero"
      [] id = 2 -> "integer overflow"
      [] id \in {3, 13} -> "out of bounds memory access"
      [] id = 4 -> "unreachable executed"
      [] id \in {5, 6} -> "stack overflow"
      [] id = 7 -> "undefined element"
      [] id = 8 -> "uninitialized element"
      [] id = 9 -> "indirect call type mismatch"
      [] id = 10 -> "invalid conversion to integer"
      [] id \in {14, 15} -> "out of bounds table access"
      [] id = 16 -> "expected shared memory"
      [] id = 17 -> "unaligned atomic"
      [] id = 20 -> "uncaught exception"
      [] OTHER -> "unknown"
\* e.tr holds <<message, number>> of the trap lines of e.out
TrapsAre(tr, ids) == IF ids = {} THEN tr = <<>>
                     ELSE Len(tr) = 1 /\ tr[1].id \in ids /\ tr[1].msg = Message(tr[1].id)
Seen(e, f) == /\ Lines(e.out, RESULT) = f.res
              /\ Len(Lines(e.out, TRAPPED)) = Len(e.tr)
              /\ TrapsAre(e.tr, f.ids)
              /\ (Lines(e.out, FAILED) # <<>>) = f.err

\* a whole command line: options in order up to the first that fails
Options(st, os) ==
    FoldLeft(LAMBDA S, o : UNION {IF x.err THEN {x}
                                  ELSE {[y EXCEPT !.res = x.res \o @, !.code = -1] : y \in Cmd(x.st, o, FALSE)} : x \in S},
             {Eff(st, <<>>, {}, FALSE, -1)}, os)
\* the program mode: load and run "_start" without showing results
START == <<95, 115, 116, 97, 114, 116>>
Program(x, r) ==
    UNION {IF y.err THEN {y}
           ELSE Invoke(y.st, [tok |-> START, args |-> <<>>], y.st.mods[Len(y.st.mods)].i, FALSE)
           : y \in LoadMod(x.st, [has |-> 0, nm |-> <<>>], File(x.st, r), FALSE)}
Status(f) == IF f.code >= 0 THEN f.code % 256 ELSE IF f.err THEN 1 ELSE 0
SeenLine(e, f) == /\ Lines(e.out, RESULT) = f.res
                  /\ Len(Lines(e.out, TRAPPED)) = Len(e.tr)
                  /\ TrapsAre(e.tr, f.ids)

Step(st, e) ==
    CASE e.v = "cmd" -> {f.st : f \in {f \in Cmd(st, e, TRUE) : Seen(e, f)}}
      \* status -1: the REPL was started
      [] e.v = "opts" ->
             LET all == Options(st, e.os)
                 fin == IF e.run = 0 THEN all
                        ELSE UNION {IF x.err THEN {[x EXCEPT !.code = -1]}
                                    ELSE {[y EXCEPT !.res = x.res] : y \in Program(x, e.f)} : x \in all}
             IN  {f.st : f \in {f \in fin :
                     /\ SeenLine(e, f)
                     /\ e.status = IF e.repl = 1 /\ ~f.err THEN -1
                                   ELSE IF e.run = 1 THEN Status(f) ELSE IF f.err THEN 1 ELSE 0}}
      [] e.v = "end" -> IF e.status = 0 THEN {st} ELSE {}
=============================================================================
