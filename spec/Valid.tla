------------------------------- MODULE Valid --------------------------------
(***************************************************************************)
(* Validation of decoded modules, and the static facts about function      *)
(* bodies the execution relation uses: for every branch its target block,  *)
(* arity and operand stack height; for every block its end and else; for   *)
(* every try_table its region and catch clauses.                           *)
(***************************************************************************)
EXTENDS Binary

I32 == 127
I64 == 126
F32 == 125
F64 == 124
V128 == 123
FuncRef == 112
ExternRef == 111
ExnRef == 105
Unk == -1

No == [ok |-> FALSE, a |-> <<>>, r |-> <<>>]
Sig(a, r) == [ok |-> TRUE, a |-> a, r |-> r]

(************************** numeric instructions ***************************)
NumSig(op) ==
    CASE op = 69 -> Sig(<<I32>>, <<I32>>)
      [] op \in 70..79 -> Sig(<<I32, I32>>, <<I32>>)
      [] op = 80 -> Sig(<<I64>>, <<I32>>)
      [] op \in 81..90 -> Sig(<<I64, I64>>, <<I32>>)
      [] op \in 91..96 -> Sig(<<F32, F32>>, <<I32>>)
      [] op \in 97..102 -> Sig(<<F64, F64>>, <<I32>>)
      [] op \in 103..105 -> Sig(<<I32>>, <<I32>>)
      [] op \in 106..120 -> Sig(<<I32, I32>>, <<I32>>)
      [] op \in 121..123 -> Sig(<<I64>>, <<I64>>)
      [] op \in 124..138 -> Sig(<<I64, I64>>, <<I64>>)
      [] op \in 139..145 -> Sig(<<F32>>, <<F32>>)
      [] op \in 146..152 -> Sig(<<F32, F32>>, <<F32>>)
      [] op \in 153..159 -> Sig(<<F64>>, <<F64>>)
      [] op \in 160..166 -> Sig(<<F64, F64>>, <<F64>>)
      [] op = 167 -> Sig(<<I64>>, <<I32>>)
      [] op \in 168..169 -> Sig(<<F32>>, <<I32>>)
      [] op \in 170..171 -> Sig(<<F64>>, <<I32>>)
      [] op \in 172..173 -> Sig(<<I32>>, <<I64>>)
      [] op \in 174..175 -> Sig(<<F32>>, <<I64>>)
      [] op \in 176..177 -> Sig(<<F64>>, <<I64>>)
      [] op \in 178..179 -> Sig(<<I32>>, <<F32>>)
      [] op \in 180..181 -> Sig(<<I64>>, <<F32>>)
      [] op = 182 -> Sig(<<F64>>, <<F32>>)
      [] op \in 183..184 -> Sig(<<I32>>, <<F64>>)
      [] op \in 185..186 -> Sig(<<I64>>, <<F64>>)
      [] op = 187 -> Sig(<<F32>>, <<F64>>)
      [] op = 188 -> Sig(<<F32>>, <<I32>>)
      [] op = 189 -> Sig(<<F64>>, <<I64>>)
      [] op = 190 -> Sig(<<I32>>, <<F32>>)
      [] op = 191 -> Sig(<<I64>>, <<F64>>)
      [] op \in 192..193 -> Sig(<<I32>>, <<I32>>)
      [] op \in 194..196 -> Sig(<<I64>>, <<I64>>)
NumSigs == [op \in 69..196 |-> NumSig(op)]
SatSig(n) == Sig(<<IF n % 4 < 2 THEN F32 ELSE F64>>, <<IF n < 4 THEN I32 ELSE I64>>)

(**************************** memory accesses ******************************)
\* 40..62: <<natural alignment exponent, type, is a store>>
MemOps == [op \in 40..62 |->
    CASE op = 40 -> <<2, I32, FALSE>> [] op = 41 -> <<3, I64, FALSE>>
      [] op = 42 -> <<2, F32, FALSE>> [] op = 43 -> <<3, F64, FALSE>>
      [] op = 44 -> <<0, I32, FALSE>> [] op = 45 -> <<0, I32, FALSE>>
      [] op = 46 -> <<1, I32, FALSE>> [] op = 47 -> <<1, I32, FALSE>>
      [] op = 48 -> <<0, I64, FALSE>> [] op = 49 -> <<0, I64, FALSE>>
      [] op = 50 -> <<1, I64, FALSE>> [] op = 51 -> <<1, I64, FALSE>>
      [] op = 52 -> <<2, I64, FALSE>> [] op = 53 -> <<2, I64, FALSE>>
      [] op = 54 -> <<2, I32, TRUE>> [] op = 55 -> <<3, I64, TRUE>>
      [] op = 56 -> <<2, F32, TRUE>> [] op = 57 -> <<3, F64, TRUE>>
      [] op = 58 -> <<0, I32, TRUE>> [] op = 59 -> <<1, I32, TRUE>>
      [] op = 60 -> <<0, I64, TRUE>> [] op = 61 -> <<1, I64, TRUE>>
      [] op = 62 -> <<2, I64, TRUE>>]
MemSig(op, al, mi, nm) ==
    LET o == MemOps[op] IN
    IF mi >= nm \/ al > o[1] THEN No
    ELSE IF o[3] THEN Sig(<<I32, o[2]>>, <<>>) ELSE Sig(<<I32>>, <<o[2]>>)

(******************************** SIMD *************************************)
SimdNat(n) ==
    CASE n = 0 \/ n = 11 -> 4
      [] n \in 1..6 \/ n \in {10, 93} -> 3
      [] n \in {7, 84, 88} -> 0
      [] n \in {8, 85, 89} -> 1
      [] n \in {9, 86, 90, 92} -> 2
      [] n \in {87, 91} -> 3
\* number of lanes for the lane immediates
SimdLanes(n) ==
    CASE n \in {21, 22, 23, 84, 88} -> 16
      [] n \in {24, 25, 26, 85, 89} -> 8
      [] n \in {27, 28, 31, 32, 86, 90} -> 4
      [] n \in {29, 30, 33, 34, 87, 91} -> 2
V1 == <<V128>>
V2 == <<V128, V128>>
SimdUn == {77, 94, 95, 96, 97, 98, 103, 104, 105, 106, 116, 117, 122, 148, 124, 125, 126, 127,
           128, 129, 135, 136, 137, 138, 160, 161, 167, 168, 169, 170, 192, 193, 199, 200, 201, 202,
           224, 225, 227, 236, 237, 239} \cup 248..255
SimdTest == {83, 99, 100, 131, 132, 163, 164, 195, 196}
SimdShift == {107, 108, 109, 139, 140, 141, 171, 172, 173, 203, 204, 205}
SimdSig(ins, nm) ==
    LET n == ins[1] - 64768 IN
    IF n \in SimdTest THEN Sig(V1, <<I32>>)
    ELSE IF n \in SimdShift THEN Sig(<<V128, I32>>, V1)
    ELSE IF n \in SimdUn THEN Sig(V1, V1)
    ELSE IF n = 82 THEN Sig(<<V128, V128, V128>>, V1)
    ELSE IF n <= 10 \/ n \in {92, 93}
         THEN IF ins[3] >= nm \/ ins[2] > SimdNat(n) THEN No ELSE Sig(<<I32>>, V1)
    ELSE IF n = 11
         THEN IF ins[3] >= nm \/ ins[2] > SimdNat(n) THEN No ELSE Sig(<<I32, V128>>, <<>>)
    ELSE IF n = 12 THEN Sig(<<>>, V1)
    ELSE IF n = 13 THEN IF \A i \in 1..16 : ins[2][i] < 32 THEN Sig(V2, V1) ELSE No
    ELSE IF n \in 15..20
         THEN Sig(<<<<I32, I32, I32, I64, F32, F64>>[n - 14]>>, V1)
    ELSE IF n \in 21..34
         THEN IF ins[2] >= SimdLanes(n) THEN No
              ELSE LET s == <<I32, I32, I32, I32, I32, I32, I32, I32, I64, I64, F32, F32, F64, F64>>[n - 20]
                   IN IF n \in {23, 26, 28, 30, 32, 34} THEN Sig(<<V128, s>>, V1) ELSE Sig(V1, <<s>>)
    ELSE IF n \in 84..91
         THEN IF ins[3] >= nm \/ ins[2] > SimdNat(n) \/ ins[5] >= SimdLanes(n) THEN No
              ELSE IF n < 88 THEN Sig(<<I32, V128>>, V1) ELSE Sig(<<I32, V128>>, <<>>)
    ELSE Sig(V2, V1)

(******************************* atomics ***********************************)
\* width exponent of the accesses 16..78, by (n - 16) % 7 (the order of the
\* seven forms is the same in every group)
AtNat == <<2, 3, 0, 1, 0, 1, 2>>
AtTy == <<I32, I64, I32, I32, I64, I64, I64>>
AtomSig(ins, nm) ==
    LET n == ins[1] - 65024
        w == IF n >= 16 THEN AtNat[((n - 16) % 7) + 1] ELSE IF n = 2 THEN 3 ELSE 2
        t == IF n >= 16 THEN AtTy[((n - 16) % 7) + 1] ELSE I32
    IN IF n = 3 THEN Sig(<<>>, <<>>)
       ELSE IF ins[3] >= nm \/ ins[2] # w THEN No
       ELSE CASE n = 0 -> Sig(<<I32, I32>>, <<I32>>)
              [] n = 1 -> Sig(<<I32, I32, I64>>, <<I32>>)
              [] n = 2 -> Sig(<<I32, I64, I64>>, <<I32>>)
              [] n \in 16..22 -> Sig(<<I32>>, <<t>>)
              [] n \in 23..29 -> Sig(<<I32, t>>, <<>>)
              [] n \in 30..71 -> Sig(<<I32, t>>, <<t>>)
              [] n \in 72..78 -> Sig(<<I32, t, t>>, <<t>>)

(***************************************************************************)
(* The static context of a module                                          *)
(***************************************************************************)
ImpOf(m, k) == SelectSeq(m.imports, LAMBDA x : x.k = k)
Map(s, f(_)) == FoldLeft(LAMBDA a, x : Append(a, f(x)), <<>>, s)
Ctx(m) ==
    LET ig == Map(ImpOf(m, 3), LAMBDA x : [t |-> x.d.t, mut |-> x.d.mut]) IN
    [types |-> m.types,
     fts |-> Map(ImpOf(m, 0), LAMBDA x : x.d) \o m.funcs,        \* type index of every function
     tabs |-> Map(ImpOf(m, 1), LAMBDA x : x.d) \o m.tables,
     mems |-> Map(ImpOf(m, 2), LAMBDA x : x.d) \o m.mems,
     globs |-> ig \o Map(m.globals, LAMBDA x : [t |-> x.t, mut |-> x.mut]),
     nig |-> Len(ig),
     tags |-> Map(ImpOf(m, 4), LAMBDA x : x.d[2]) \o Map(m.tags, LAMBDA x : x[2]),
     nd |-> m.dcount,
     elems |-> Map(m.elems, LAMBDA x : x.et),
     \* functions that may be the subject of ref.func in code
     refs |-> { m.exports[i].i : i \in { j \in DOMAIN m.exports : m.exports[j].k = 0 } }
              \cup UNION { LET x == m.elems[i] IN
                           IF x.x THEN UNION { { ins[2] : ins \in { q \in Range(x.init[j]) : q[1] = 210 } }
                                               : j \in DOMAIN x.init }
                           ELSE Range(x.init) : i \in DOMAIN m.elems }
              \cup UNION { { ins[2] : ins \in { q \in Range(m.globals[i].init) : q[1] = 210 } }
                           : i \in DOMAIN m.globals }]
FT(C, f) == C.types[C.fts[f + 1] + 1]

(***************************** constant expressions ************************)
\* type of a constant instruction given the stack, or <<>> if not allowed
ConstStep(C, a, ins) ==
    IF ~a.ok THEN a
    ELSE LET op == ins[1]
             push(t) == [a EXCEPT !.st = Append(@, t)]
             bad == [a EXCEPT !.ok = FALSE]
             n == Len(a.st)
         IN CASE op = 65 -> push(I32) [] op = 66 -> push(I64)
              [] op = 67 -> push(F32) [] op = 68 -> push(F64)
              [] op = XD(12) -> push(V128)
              [] op = 208 -> push(ins[2])
              [] op = 210 -> IF ins[2] < Len(C.fts) THEN push(FuncRef) ELSE bad
              [] op = 35 -> IF ins[2] < C.nig THEN
                               (IF C.globs[ins[2] + 1].mut = 0 THEN push(C.globs[ins[2] + 1].t) ELSE bad)
                            ELSE bad
              [] op \in {106, 107, 108} ->
                   IF n >= 2 THEN (IF a.st[n] = I32 /\ a.st[n - 1] = I32
                                   THEN [a EXCEPT !.st = SubSeq(@, 1, n - 1)] ELSE bad) ELSE bad
              [] op \in {124, 125, 126} ->
                   IF n >= 2 THEN (IF a.st[n] = I64 /\ a.st[n - 1] = I64
                                   THEN [a EXCEPT !.st = SubSeq(@, 1, n - 1)] ELSE bad) ELSE bad
              [] op = 11 -> a
              [] OTHER -> bad
ConstOk(C, code, t) ==
    LET r == FoldLeft(LAMBDA a, ins : ConstStep(C, a, ins), [ok |-> TRUE, st |-> <<>>], code)
    IN r.ok /\ r.st = <<t>>

(******************************* bodies ************************************)
\* pass 1: for the instruction at pc opening a block, the pc of its end / else
Openers == {2, 3, 4, 31}
Blocks(code) ==
    LET n == Len(code)
        z == [i \in 1..n |-> 0]
        r == FoldLeft(LAMBDA a, i :
                LET op == code[i][1] IN
                IF op \in Openers THEN [a EXCEPT !.s = Append(@, i)]
                ELSE IF op = 11 THEN
                     (IF a.s = <<>> THEN a   \* the end of the body
                      ELSE [a EXCEPT !.e[a.s[Len(a.s)]] = i, !.s = SubSeq(@, 1, Len(@) - 1)])
                ELSE IF op = 5 /\ a.s # <<>> THEN [a EXCEPT !.l[a.s[Len(a.s)]] = i]
                ELSE a,
                [s |-> <<>>, e |-> z, l |-> z], NatSeq(n))
    IN [e |-> r.e, l |-> r.l]

\* operand types
Match(x, y) == x = y \/ x = Unk \/ y = Unk
TopC(a) == a.ct[Len(a.ct)]
\* pop the types ts off a.st; sets ok to FALSE if that is impossible
Pop(a, ts) ==
    LET c == TopC(a)  n == Len(ts)  av == Len(a.st) - c.h  k == IF n < av THEN n ELSE av
    IN IF n = 0 THEN a
       ELSE IF n > av /\ ~c.unr THEN [a EXCEPT !.ok = FALSE]
       ELSE IF \A i \in 0..(k - 1) : Match(a.st[Len(a.st) - i], ts[n - i])
            THEN [a EXCEPT !.st = SubSeq(@, 1, Len(@) - k)]
            ELSE [a EXCEPT !.ok = FALSE]
Push(a, ts) == IF ts = <<>> THEN a
               ELSE [a EXCEPT !.st = @ \o ts,
                              !.mx = IF Len(a.st) + Len(ts) > @ THEN Len(a.st) + Len(ts) ELSE @]
Unreach(a) == [a EXCEPT !.st = SubSeq(@, 1, TopC(a).h), !.ct[Len(a.ct)].unr = TRUE]
Fail(a) == [a EXCEPT !.ok = FALSE]
Emit(a, ins) == [a EXCEPT !.out = Append(@, ins)]
\* type at depth d of the operand stack (Unk when polymorphic); the caller
\* checks that popping is possible
At(a, d) == IF Len(a.st) - d > TopC(a).h - 0 THEN a.st[Len(a.st) - d] ELSE Unk

BlockType(C, bt) ==
    IF bt = -64 THEN Sig(<<>>, <<>>)
    ELSE IF bt >= 0 THEN (IF bt < Len(C.types) THEN Sig(C.types[bt + 1][1], C.types[bt + 1][2]) ELSE No)
    ELSE IF bt + 128 \in ValTypes THEN Sig(<<>>, <<bt + 128>>) ELSE No
LabelTypes(c) == IF c.op = 3 THEN c.ps ELSE c.rs
\* the frame of label l
Label(a, l) == a.ct[Len(a.ct) - l]
HasLabel(a, l) == l < Len(a.ct)
Target(a, l) == LET c == Label(a, l) IN <<c.pc, Len(LabelTypes(c)), c.h>>

Enter(a, op, sig, pc) ==
    LET b == Pop(a, sig.a) IN
    IF ~b.ok THEN b
    ELSE [b EXCEPT !.ct = Append(@, [op |-> op, ps |-> sig.a, rs |-> sig.r, h |-> Len(b.st),
                                     unr |-> FALSE, pc |-> pc]),
                   !.st = @ \o sig.a]
\* leave the innermost block: its results are on the stack and nothing else
Leave(a) ==
    LET c == TopC(a)  b == Pop(a, c.rs)
    IN IF ~b.ok THEN b
       ELSE IF Len(b.st) # c.h THEN Fail(b)
       ELSE [b EXCEPT !.ct = SubSeq(@, 1, Len(@) - 1)]
PopPush(a, s) == IF ~s.ok THEN Fail(a)
                 ELSE LET b == Pop(a, s.a) IN IF b.ok THEN Push(b, s.r) ELSE b

NumT == {I32, I64, F32, F64, V128}
\* everything that is not control
Plain(C, L, a, ins) ==
    LET op == ins[1]
        nm == Len(C.mems)
    IN
    IF op \in 69..196 THEN PopPush(a, NumSigs[op])
    ELSE IF op = 32 THEN (IF ins[2] < Len(L) THEN Push(a, <<L[ins[2] + 1]>>) ELSE Fail(a))
    ELSE IF op = 33 THEN (IF ins[2] < Len(L) THEN Pop(a, <<L[ins[2] + 1]>>) ELSE Fail(a))
    ELSE IF op = 34 THEN (IF ins[2] < Len(L) THEN PopPush(a, Sig(<<L[ins[2] + 1]>>, <<L[ins[2] + 1]>>))
                          ELSE Fail(a))
    ELSE IF op = 65 THEN Push(a, <<I32>>)
    ELSE IF op = 66 THEN Push(a, <<I64>>)
    ELSE IF op = 67 THEN Push(a, <<F32>>)
    ELSE IF op = 68 THEN Push(a, <<F64>>)
    ELSE IF op \in 40..62 THEN PopPush(a, MemSig(op, ins[2], ins[3], nm))
    ELSE IF op = 35 THEN (IF ins[2] < Len(C.globs) THEN Push(a, <<C.globs[ins[2] + 1].t>>) ELSE Fail(a))
    ELSE IF op = 36 THEN (IF ins[2] >= Len(C.globs) THEN Fail(a)
                          ELSE IF C.globs[ins[2] + 1].mut = 0 THEN Fail(a)
                          ELSE Pop(a, <<C.globs[ins[2] + 1].t>>))
    ELSE IF op = 26 THEN Pop(a, <<Unk>>)
    ELSE IF op = 27 THEN
         LET b == Pop(a, <<I32>>)  t1 == At(b, 0)
             c == IF b.ok THEN Pop(b, <<Unk>>) ELSE b
             t2 == IF c.ok THEN At(c, 0) ELSE Unk
             d == IF c.ok THEN Pop(c, <<Unk>>) ELSE c
         IN IF ~d.ok THEN d
            ELSE IF Match(t1, t2) /\ t1 \in NumT \cup {Unk} /\ t2 \in NumT \cup {Unk}
                 THEN Push(d, <<IF t1 = Unk THEN t2 ELSE t1>>)
                 ELSE Fail(d)
    ELSE IF op = 28 THEN (IF Len(ins[2]) # 1 THEN Fail(a)
                          ELSE PopPush(a, Sig(<<ins[2][1], ins[2][1], I32>>, <<ins[2][1]>>)))
    ELSE IF op = 1 THEN a
    ELSE IF op = 16 THEN (IF ins[2] < Len(C.fts)
                          THEN PopPush(a, Sig(FT(C, ins[2])[1], FT(C, ins[2])[2])) ELSE Fail(a))
    ELSE IF op = 17 THEN
         IF ins[2] >= Len(C.types) \/ ins[3] >= Len(C.tabs) THEN Fail(a)
         ELSE IF C.tabs[ins[3] + 1].et # FuncRef THEN Fail(a)
         ELSE PopPush(a, Sig(Append(C.types[ins[2] + 1][1], I32), C.types[ins[2] + 1][2]))
    ELSE IF op = 37 THEN (IF ins[2] < Len(C.tabs)
                          THEN PopPush(a, Sig(<<I32>>, <<C.tabs[ins[2] + 1].et>>)) ELSE Fail(a))
    ELSE IF op = 38 THEN (IF ins[2] < Len(C.tabs)
                          THEN Pop(a, <<I32, C.tabs[ins[2] + 1].et>>) ELSE Fail(a))
    ELSE IF op = 63 THEN (IF ins[2] < nm THEN Push(a, <<I32>>) ELSE Fail(a))
    ELSE IF op = 64 THEN (IF ins[2] < nm THEN PopPush(a, Sig(<<I32>>, <<I32>>)) ELSE Fail(a))
    ELSE IF op = 208 THEN Push(a, <<ins[2]>>)
    ELSE IF op = 209 THEN
         LET b == Pop(a, <<Unk>>) IN
         IF ~b.ok THEN b ELSE IF At(a, 0) \in RefTypes \cup {Unk} THEN Push(b, <<I32>>) ELSE Fail(b)
    ELSE IF op = 210 THEN (IF ins[2] < Len(C.fts) /\ ins[2] \in C.refs THEN Push(a, <<FuncRef>>) ELSE Fail(a))
    ELSE IF op \in 64512..64519 THEN PopPush(a, SatSig(op - 64512))
    ELSE IF op = XC(8) THEN (IF ins[3] < nm /\ C.nd # -1 /\ ins[2] < C.nd
                             THEN Pop(a, <<I32, I32, I32>>) ELSE Fail(a))
    ELSE IF op = XC(9) THEN (IF C.nd # -1 /\ ins[2] < C.nd THEN a ELSE Fail(a))
    ELSE IF op = XC(10) THEN (IF ins[2] < nm /\ ins[3] < nm THEN Pop(a, <<I32, I32, I32>>) ELSE Fail(a))
    ELSE IF op = XC(11) THEN (IF ins[2] < nm THEN Pop(a, <<I32, I32, I32>>) ELSE Fail(a))
    ELSE IF op = XC(12) THEN
         IF ins[2] >= Len(C.elems) \/ ins[3] >= Len(C.tabs) THEN Fail(a)
         ELSE IF C.elems[ins[2] + 1] # C.tabs[ins[3] + 1].et THEN Fail(a)
         ELSE Pop(a, <<I32, I32, I32>>)
    ELSE IF op = XC(13) THEN (IF ins[2] < Len(C.elems) THEN a ELSE Fail(a))
    ELSE IF op = XC(14) THEN
         IF ins[2] >= Len(C.tabs) \/ ins[3] >= Len(C.tabs) THEN Fail(a)
         ELSE IF C.tabs[ins[2] + 1].et # C.tabs[ins[3] + 1].et THEN Fail(a)
         ELSE Pop(a, <<I32, I32, I32>>)
    ELSE IF op \in {XC(15), XC(16), XC(17)} THEN
         IF ins[2] >= Len(C.tabs) THEN Fail(a)
         ELSE LET t == C.tabs[ins[2] + 1].et IN
              PopPush(a, IF op = XC(15) THEN Sig(<<t, I32>>, <<I32>>)
                         ELSE IF op = XC(16) THEN Sig(<<>>, <<I32>>)
                         ELSE Sig(<<I32, t, I32>>, <<>>))
    ELSE IF op \in 64768..65023 THEN PopPush(a, SimdSig(ins, nm))
    ELSE IF op \in 65024..65110 THEN PopPush(a, AtomSig(ins, nm))
    ELSE Fail(a)

\* catch clauses see the labels around the try_table
CatchTypes(C, c) == CASE c[1] = 0 -> C.types[C.tags[c[2] + 1] + 1][1]
                      [] c[1] = 1 -> Append(C.types[C.tags[c[2] + 1] + 1][1], ExnRef)
                      [] c[1] = 2 -> <<>>
                      [] c[1] = 3 -> <<ExnRef>>
CatchOk(C, a, c) ==
    /\ c[1] < 2 => c[2] < Len(C.tags)
    /\ HasLabel(a, c[3])
    /\ LabelTypes(Label(a, c[3])) = CatchTypes(C, c)

Step(C, L, rets, B, a, ins, pc) ==
    LET op == ins[1] IN
    IF op > 31 /\ op \notin {252, 253, 254} THEN Emit(Plain(C, L, a, ins), ins)
    ELSE IF op = 0 THEN Emit(Unreach(a), ins)
    ELSE IF op \in {2, 3} THEN
         LET s == BlockType(C, ins[2]) IN
         IF s.ok THEN Emit(Enter(a, op, s, pc), <<op>>) ELSE Fail(a)
    ELSE IF op = 4 THEN
         LET s == BlockType(C, ins[2])  b == Pop(a, <<I32>>) IN
         IF ~s.ok \/ ~b.ok THEN Fail(a)
         ELSE Emit(Enter(b, 4, s, pc), <<4, IF B.l[pc] # 0 THEN B.l[pc] ELSE B.e[pc]>>)
    ELSE IF op = 5 THEN
         LET c == TopC(a) IN
         IF c.op # 4 THEN Fail(a)
         ELSE LET b == Leave(a) IN
              IF ~b.ok THEN b
              ELSE Emit([b EXCEPT !.ct = Append(@, [c EXCEPT !.op = 5, !.unr = FALSE]),
                                  !.st = @ \o c.ps], <<5, B.e[c.pc]>>)
    ELSE IF op = 11 THEN
         LET c == TopC(a)
             b == Leave(a)
         IN IF ~b.ok THEN b
            ELSE IF c.op = 4 /\ c.ps # c.rs THEN Fail(b)      \* if without else
            ELSE IF b.ct = <<>> THEN Emit([b EXCEPT !.st = c.rs], <<15, Len(c.rs)>>)
            ELSE Emit(Push(b, c.rs), <<11>>)
    ELSE IF op = 31 THEN
         LET s == BlockType(C, ins[2]) IN
         IF ~s.ok THEN Fail(a)
         ELSE IF \A i \in DOMAIN ins[3] : CatchOk(C, a, ins[3][i])
              THEN Emit([Enter(a, 31, s, pc) EXCEPT
                    !.hs = Append(@, [lo |-> pc, hi |-> B.e[pc],
                        c |-> Map(ins[3], LAMBDA c : <<c[1], c[2]>> \o Target(a, c[3]))])], <<31>>)
              ELSE Fail(a)
    ELSE IF op = 12 THEN
         IF ~HasLabel(a, ins[2]) THEN Fail(a)
         ELSE LET b == Pop(a, LabelTypes(Label(a, ins[2]))) IN
              IF b.ok THEN Emit(Unreach(b), <<12>> \o Target(a, ins[2])) ELSE b
    ELSE IF op = 13 THEN
         IF ~HasLabel(a, ins[2]) THEN Fail(a)
         ELSE LET t == LabelTypes(Label(a, ins[2]))
                  b == PopPush(a, Sig(Append(t, I32), t)) IN
              IF b.ok THEN Emit(b, <<13>> \o Target(a, ins[2])) ELSE b
    ELSE IF op = 14 THEN
         LET b == Pop(a, <<I32>>)
             ls == Append(ins[2], ins[3])
         IN IF ~b.ok THEN b
            ELSE IF \E i \in DOMAIN ls : ~HasLabel(b, ls[i]) THEN Fail(b)
            ELSE IF \E i \in DOMAIN ls :
                      \/ Len(LabelTypes(Label(b, ls[i]))) # Len(LabelTypes(Label(b, ins[3])))
                      \/ ~Pop(b, LabelTypes(Label(b, ls[i]))).ok THEN Fail(b)
            ELSE Emit(Unreach(b), <<14, Map(ins[2], LAMBDA l : Target(b, l)), Target(b, ins[3])>>)
    ELSE IF op = 15 THEN
         LET b == Pop(a, rets) IN IF b.ok THEN Emit(Unreach(b), <<15, Len(rets)>>) ELSE b
    ELSE IF op = 18 THEN
         IF ins[2] >= Len(C.fts) THEN Fail(a)
         ELSE IF FT(C, ins[2])[2] # rets THEN Fail(a)
         ELSE LET b == Pop(a, FT(C, ins[2])[1]) IN IF b.ok THEN Emit(Unreach(b), ins) ELSE b
    ELSE IF op = 19 THEN
         IF ins[2] >= Len(C.types) \/ ins[3] >= Len(C.tabs) THEN Fail(a)
         ELSE IF C.tabs[ins[3] + 1].et # FuncRef \/ C.types[ins[2] + 1][2] # rets THEN Fail(a)
         ELSE LET b == Pop(a, Append(C.types[ins[2] + 1][1], I32)) IN
              IF b.ok THEN Emit(Unreach(b), ins) ELSE b
    ELSE IF op = 8 THEN
         IF ins[2] >= Len(C.tags) THEN Fail(a)
         ELSE LET b == Pop(a, C.types[C.tags[ins[2] + 1] + 1][1]) IN
              IF b.ok THEN Emit(Unreach(b), ins) ELSE b
    ELSE IF op = 10 THEN
         LET b == Pop(a, <<ExnRef>>) IN IF b.ok THEN Emit(Unreach(b), ins) ELSE b
    ELSE Emit(Plain(C, L, a, ins), ins)      \* 1, 16, 17, 26, 27, 28

\* locals of a body: parameters, then the declared ones (only bodies with a
\* reasonable number of locals are given to the specification)
LocalTypes(ft, code) ==
    FoldLeft(LAMBDA a, c : a \o [i \in 1..ToNat(c[1]) |-> c[2]], ft[1], code.locals)

\* default value of a local of type t
ZeroOf(t) == CASE t \in {I32, F32} -> Zeros(4) [] t \in {I64, F64} -> Zeros(8)
               [] t = V128 -> Zeros(16) [] OTHER -> <<>>
\* result of checking a body: compiled code, handlers hs, block ends e, local
\* types lt and defaults zl, highest operand stack mx
Body(C, ft, code) ==
    LET tot == FoldLeft(LAMBDA n, c : Add(n, ZX(c[1], 8)), FromNat(Len(ft[1]), 8), code.locals)
        few == SubSeq(tot, 5, 8) = Zeros(4)
        L == IF few THEN LocalTypes(ft, code) ELSE <<>>
        B == Blocks(code.code)
        a0 == [ok |-> TRUE, st |-> <<>>, out |-> <<>>, hs |-> <<>>, mx |-> 0,
               ct |-> <<[op |-> 0, ps |-> <<>>, rs |-> ft[2], h |-> 0, unr |-> FALSE, pc |-> 0]>>]
        r == FoldLeft(LAMBDA a, i : IF ~a.ok THEN a ELSE Step(C, L, ft[2], B, a, code.code[i], i),
                      a0, NatSeq(Len(code.code)))
    IN IF ~few THEN [ok |-> FALSE]
       ELSE IF r.ok /\ r.ct = <<>>
       THEN [ok |-> TRUE, code |-> r.out, hs |-> r.hs, e |-> B.e, np |-> Len(ft[1]), lt |-> L,
             nr |-> Len(ft[2]), mx |-> r.mx,
             zl |-> Map(SubSeq(L, Len(ft[1]) + 1, Len(L)), LAMBDA t : ZeroOf(t))]
       ELSE [ok |-> FALSE]

(****************************** modules ************************************)
CellsOf(t) == CASE t \in {I32, F32} -> 1 [] t = V128 -> 4 [] t = ExnRef -> 100 [] OTHER -> 2
MaxExnCells == 4
TagOk(m, t) ==     \* t: <<attribute, type index>>
    /\ t[1] = 0 /\ t[2] < Len(m.types)
    /\ m.types[t[2] + 1][2] = <<>>
    /\ FoldLeft(LAMBDA s, x : s + CellsOf(x), 0, m.types[t[2] + 1][1]) <= MaxExnCells

ModOk(m, C) ==
    /\ \A i \in DOMAIN m.imports :
         CASE m.imports[i].k = 0 -> m.imports[i].d < Len(m.types)
           [] m.imports[i].k = 4 -> TagOk(m, m.imports[i].d)
           [] OTHER -> TRUE
    /\ \A i \in DOMAIN m.funcs : m.funcs[i] < Len(m.types)
    /\ \A i \in DOMAIN m.tags : TagOk(m, m.tags[i])
    /\ \A i \in DOMAIN m.globals : ConstOk(C, m.globals[i].init, m.globals[i].t)
    /\ \A i \in DOMAIN m.exports :
         LET x == m.exports[i] IN
         /\ x.i < (CASE x.k = 0 -> Len(C.fts) [] x.k = 1 -> Len(C.tabs) [] x.k = 2 -> Len(C.mems)
                     [] x.k = 3 -> Len(C.globs) [] x.k = 4 -> Len(C.tags))
         /\ \A j \in DOMAIN m.exports : j < i => m.exports[j].n # x.n
    /\ m.start # -1 => /\ m.start < Len(C.fts)
                       /\ C.types[C.fts[m.start + 1] + 1] = <<<<>>, <<>>>>
    /\ \A i \in DOMAIN m.elems :
         LET x == m.elems[i] IN
         /\ x.mode = 0 => /\ x.table < Len(C.tabs)
                          /\ C.tabs[x.table + 1].et = x.et
                          /\ ConstOk(C, x.off, I32)
         /\ IF x.x THEN \A j \in DOMAIN x.init : ConstOk(C, x.init[j], x.et)
            ELSE \A j \in DOMAIN x.init : x.init[j] < Len(C.fts)
    /\ \A i \in DOMAIN m.datas :
         LET x == m.datas[i] IN
         x.active => x.mem < Len(C.mems) /\ ConstOk(C, x.off, I32)

\* [ok, m, C, f (bodies)]; the bodies are checked only in an otherwise valid module
Check(b) ==
    LET d == Decode(b) IN
    IF ~d.ok THEN [ok |-> FALSE, why |-> "malformed"]
    ELSE LET m == d.m
             C == Ctx(m)
             nif == Len(C.fts) - Len(m.funcs)
         IN IF ~ModOk(m, C) THEN [ok |-> FALSE, why |-> "module"]
            ELSE LET f == FoldLeft(LAMBDA a, i :
                              IF ~a.ok THEN a
                              ELSE LET x == Body(C, FT(C, nif + i - 1), m.codes[i]) IN
                                   IF x.ok THEN [a EXCEPT !.v = Append(@, x)] ELSE [ok |-> FALSE],
                              [ok |-> TRUE, v |-> <<>>], NatSeq(Len(m.codes)))
                 IN IF f.ok THEN [ok |-> TRUE, m |-> m, C |-> C, f |-> f.v]
                    ELSE [ok |-> FALSE, why |-> "body"]
=============================================================================
