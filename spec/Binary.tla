------------------------------- MODULE Binary -------------------------------
(***************************************************************************)
(* The WebAssembly binary format (1.0 + multi-value, reference types, bulk *)
(* memory, SIMD, threads, exceptions, tail calls, multi memory, extended   *)
(* const, custom page sizes): a decoder from byte sequences to module      *)
(* records.                                                                *)
(*                                                                         *)
(* Every parser takes (b, p, e): bytes, position of the next byte (1-based)*)
(* and the exclusive end, and returns [ok, p, v].                          *)
(* Numbers: u32 values that are only compared with small table sizes are   *)
(* naturals saturated at 2^31-1; where the exact value matters (memory     *)
(* offsets, limits) they are 4 byte words.                                 *)
(***************************************************************************)
EXTENDS Word

Bad == [ok |-> FALSE, p |-> 0, v |-> 0]
R(p, v) == [ok |-> TRUE, p |-> p, v |-> v]
MaxNat == 2147483647

U8(b, p, e) == IF p < e THEN R(p + 1, b[p]) ELSE Bad

\* number of bytes of the LEB128 number at p, 0 if it does not end within max
LebLen(b, p, e, max) ==
    LET k == FoldLeft(LAMBDA acc, i : IF acc # 0 THEN acc
                                      ELSE IF p + i - 1 >= e THEN -1
                                      ELSE IF b[p + i - 1] < 128 THEN i ELSE 0,
                      0, Idx(max))
    IN IF k < 0 THEN 0 ELSE k
G(b, p, n, i) == IF i > n THEN 0 ELSE b[p + i - 1] % 128

\* unsigned 32 bit, as a saturated natural
U32(b, p, e) ==
    IF p < e /\ b[p] < 128 THEN R(p + 1, b[p])      \* common case
    ELSE LET n == LebLen(b, p, e, 5) IN
         IF n = 0 THEN Bad
         ELSE LET g5 == G(b, p, n, 5) IN
              IF g5 >= 16 THEN Bad
              ELSE R(p + n, IF g5 >= 8 THEN MaxNat
                            ELSE G(b, p, n, 1) + 128 * G(b, p, n, 2) + 16384 * G(b, p, n, 3)
                                 + 2097152 * G(b, p, n, 4) + 268435456 * g5)
\* unsigned 32 bit, as a word
U32W(b, p, e) ==
    LET n == LebLen(b, p, e, 5) IN
    IF n = 0 \/ G(b, p, n, 5) >= 16 THEN Bad
    ELSE LET g1 == G(b, p, n, 1)  g2 == G(b, p, n, 2)  g3 == G(b, p, n, 3)
             g4 == G(b, p, n, 4)  g5 == G(b, p, n, 5)
         IN R(p + n, <<g1 + (g2 % 2) * 128, (g2 \div 2) + (g3 % 4) * 64,
                       (g3 \div 4) + (g4 % 8) * 32, (g4 \div 8) + g5 * 16>>)
\* signed of `bits` bits (33 or less: 5 bytes, 64: 10 bytes), as a word of w bytes
LebS(b, p, e, maxb, lastbits, w) ==
    LET n == LebLen(b, p, e, maxb)
        last == G(b, p, n, n)
        \* in the longest encoding only lastbits bits of the last byte are free
        okl == n < maxb \/ last < Pow2(lastbits - 1) \/ last >= 128 - Pow2(lastbits - 1)
        neg == last >= 64
        bits == FoldLeft(LAMBDA acc, i :
                   LET x == acc[1] + G(b, p, n, i) * Pow2(acc[2])  k == acc[2] + 7
                   IN IF k >= 8 THEN <<x \div 256, k - 8, Append(acc[3], x % 256)>>
                      ELSE <<x, k, acc[3]>>,
                   <<0, 0, <<>>>>, Idx(n))
        \* the remaining bits[2] < 8 bits, sign extended
        top == IF neg THEN (bits[1] + (256 - Pow2(bits[2]))) % 256 ELSE bits[1]
        full == Append(bits[3], top)
    IN IF n = 0 \/ ~okl THEN Bad
       ELSE R(p + n, IF Len(full) >= w THEN SubSeq(full, 1, w)
                     ELSE full \o (IF neg THEN Ones(w - Len(full)) ELSE Zeros(w - Len(full))))
S32(b, p, e) == LebS(b, p, e, 5, 4, 4)
S64(b, p, e) == LebS(b, p, e, 10, 1, 8)
\* block types: s33; the value as an integer, saturated (they are small)
S33(b, p, e) ==
    LET r == LebS(b, p, e, 5, 5, 8) IN
    IF ~r.ok THEN Bad
    ELSE IF SignBit(r.v) = 1
         THEN LET m == Neg(r.v) IN R(r.p, IF IsSmall(m) THEN -ToNat(SubSeq(m, 1, 4)) ELSE -MaxNat)
         ELSE R(r.p, IF IsSmall(r.v) THEN ToNat(SubSeq(r.v, 1, 4)) ELSE MaxNat)

Bytes(b, p, e, n) == IF e - p < n THEN Bad ELSE R(p + n, SubSeq(b, p, p + n - 1))

\* the sequence 1..n for folds of any length
NatSeq(n) == IF n <= 40 THEN Idx(n) ELSE [i \in 1..n |-> i]

\* vec(item): n items one after the other
Rep1(b, p, e, n, item(_, _, _)) ==
    IF n > e - p THEN Bad     \* every item takes at least one byte
    ELSE FoldLeft(LAMBDA acc, i :
             IF ~acc.ok THEN acc
             ELSE LET r == item(b, acc.p, e) IN
                  IF r.ok THEN [acc EXCEPT !.p = r.p, !.v = Append(@, r.v)] ELSE Bad,
             R(p, <<>>), NatSeq(n))
Vec(b, p, e, item(_, _, _)) ==
    LET n == U32(b, p, e) IN
    IF n.ok THEN Rep1(b, n.p, e, n.v, item) ELSE Bad

\* UTF-8: <<ok, continuation bytes left, lower bound of the next, upper bound>>
Utf8Step(a, x) ==
    IF ~a[1] THEN a
    ELSE IF a[2] > 0
         THEN IF a[3] <= x /\ x <= a[4] THEN <<TRUE, a[2] - 1, 128, 191>> ELSE <<FALSE, 0, 0, 0>>
    ELSE IF x < 128 THEN a
    ELSE IF x < 194 THEN <<FALSE, 0, 0, 0>>
    ELSE IF x < 224 THEN <<TRUE, 1, 128, 191>>
    ELSE IF x = 224 THEN <<TRUE, 2, 160, 191>>
    ELSE IF x = 237 THEN <<TRUE, 2, 128, 159>>
    ELSE IF x < 240 THEN <<TRUE, 2, 128, 191>>
    ELSE IF x = 240 THEN <<TRUE, 3, 144, 191>>
    ELSE IF x < 244 THEN <<TRUE, 3, 128, 191>>
    ELSE IF x = 244 THEN <<TRUE, 3, 128, 143>>
    ELSE <<FALSE, 0, 0, 0>>
Utf8(s) == LET r == FoldLeft(Utf8Step, <<TRUE, 0, 128, 191>>, s) IN r[1] /\ r[2] = 0
Name(b, p, e) ==
    LET n == U32(b, p, e)
        s == IF n.ok THEN Bytes(b, n.p, e, n.v) ELSE Bad
    IN IF s.ok /\ Utf8(s.v) THEN s ELSE Bad

NumTypes == {127, 126, 125, 124}
RefTypes == {112, 111, 105}
ValTypes == NumTypes \cup RefTypes \cup {123}
OneOf(b, p, e, S) == IF p < e /\ b[p] \in S THEN R(p + 1, b[p]) ELSE Bad
ValType(b, p, e) == OneOf(b, p, e, ValTypes)

\* apply the parser f after the parse r, combining the values with g
Then(r, f(_), g(_, _)) ==
    IF ~r.ok THEN Bad
    ELSE LET s == f(r.p) IN IF s.ok THEN R(s.p, g(r.v, s.v)) ELSE Bad
Pair(x, y) == <<x, y>>

FuncTypeP(b, p, e) ==
    IF p < e /\ b[p] = 96
    THEN Then(Vec(b, p + 1, e, ValType), LAMBDA q : Vec(b, q, e, ValType), Pair)
    ELSE Bad

\* [min, max (words), hasmax, sh(ared), ps (page shift)]
\* word comparison of 4 byte words
LeW(a, b) == ~LtU(b, a)
Limits(b, p, e, mem) ==
    LET f == IF p < e THEN b[p] ELSE 255
        hasmax == f % 2 = 1
        sh == (f \div 2) % 2 = 1
        cps == (f \div 8) % 2 = 1
        okf == IF mem THEN f \in {0, 1, 3, 8, 9, 11} ELSE f \in {0, 1}
        mn == U32W(b, p + 1, e)
        mx == IF hasmax THEN U32W(b, mn.p, e) ELSE R(mn.p, <<255, 255, 255, 255>>)
        ps == IF cps THEN U32(b, mx.p, e) ELSE R(mx.p, 16)
    IN IF ~okf THEN Bad
       ELSE IF ~mn.ok THEN Bad ELSE IF ~mx.ok THEN Bad ELSE IF ~ps.ok THEN Bad
       ELSE IF ps.v \notin {0, 16} THEN Bad
       ELSE LET top == IF mem /\ ps.v = 16 THEN <<0, 0, 1, 0>> ELSE <<255, 255, 255, 255>>
                emx == IF hasmax THEN mx.v ELSE top
            IN IF LeW(mn.v, top) /\ LeW(emx, top) /\ LeW(mn.v, emx)
               THEN R(ps.p, [min |-> mn.v, max |-> emx, hasmax |-> hasmax, sh |-> sh,
                             ps |-> IF mem THEN ps.v ELSE 0])
               ELSE Bad
MemTypeP(b, p, e) == Limits(b, p, e, TRUE)
TableTypeP(b, p, e) ==
    Then(OneOf(b, p, e, RefTypes), LAMBDA q : Limits(b, q, e, FALSE),
         LAMBDA t, l : [et |-> t, lim |-> l])
GlobalTypeP(b, p, e) ==
    Then(ValType(b, p, e), LAMBDA q : OneOf(b, q, e, {0, 1}), LAMBDA t, m : [t |-> t, mut |-> m])
\* a tag: the type index
TagP(b, p, e) ==
    Then(U32(b, p, e), LAMBDA q : U32(b, q, e), Pair)

ImportP(b, p, e) ==
    LET mn == Name(b, p, e)
        nm == IF mn.ok THEN Name(b, mn.p, e) ELSE Bad
        k == IF nm.ok THEN OneOf(b, nm.p, e, 0..4) ELSE Bad
        d == IF ~k.ok THEN Bad
             ELSE CASE k.v = 0 -> U32(b, k.p, e)
                    [] k.v = 1 -> TableTypeP(b, k.p, e)
                    [] k.v = 2 -> MemTypeP(b, k.p, e)
                    [] k.v = 3 -> GlobalTypeP(b, k.p, e)
                    [] k.v = 4 -> TagP(b, k.p, e)
    IN IF d.ok THEN R(d.p, [m |-> mn.v, n |-> nm.v, k |-> k.v, d |-> d.v]) ELSE Bad
ExportP(b, p, e) ==
    LET nm == Name(b, p, e)
        k == IF nm.ok THEN OneOf(b, nm.p, e, 0..4) ELSE Bad
        i == IF k.ok THEN U32(b, k.p, e) ELSE Bad
    IN IF i.ok THEN R(i.p, [n |-> nm.v, k |-> k.v, i |-> i.v]) ELSE Bad

(***************************************************************************)
(* Instructions: <<op, immediates...>>.  op is the opcode byte, or         *)
(* 0xFC00+n, 0xFD00+n, 0xFE00+n for the prefixed ones.                     *)
(***************************************************************************)
XC(n) == 64512 + n
XD(n) == 64768 + n
XE(n) == 65024 + n

One(op, r) == IF r.ok THEN R(r.p, <<op, r.v>>) ELSE Bad
TwoU(op, b, p, e) ==
    LET x == U32(b, p, e)  y == IF x.ok THEN U32(b, x.p, e) ELSE Bad
    IN IF y.ok THEN R(y.p, <<op, x.v, y.v>>) ELSE Bad
\* memarg: <<align exponent, memory index, offset word>>
MemArg(b, p, e) ==
    LET a == U32(b, p, e)
        hasm == a.ok /\ (a.v \div 64) % 2 = 1
        m == IF ~a.ok THEN Bad ELSE IF hasm THEN U32(b, a.p, e) ELSE R(a.p, 0)
        o == IF m.ok THEN U32W(b, m.p, e) ELSE Bad
    IN IF o.ok THEN R(o.p, <<IF hasm THEN a.v - 64 ELSE a.v, m.v, o.v>>) ELSE Bad
Mem(op, b, p, e) ==
    LET r == MemArg(b, p, e) IN IF r.ok THEN R(r.p, <<op, r.v[1], r.v[2], r.v[3]>>) ELSE Bad
CatchP(b, p, e) ==
    LET k == OneOf(b, p, e, 0..3)
        t == IF ~k.ok THEN Bad ELSE IF k.v < 2 THEN U32(b, k.p, e) ELSE R(k.p, 0)
        l == IF t.ok THEN U32(b, t.p, e) ELSE Bad
    IN IF l.ok THEN R(l.p, <<k.v, t.v, l.v>>) ELSE Bad

InstrFC(n, b, p, e) ==
    CASE n \in 0..7 -> R(p, <<XC(n)>>)
      [] n \in {8, 10, 12, 14} -> TwoU(XC(n), b, p, e)
      [] n \in {9, 11, 13, 15, 16, 17} -> One(XC(n), U32(b, p, e))
      [] OTHER -> Bad
\* SIMD opcodes that do not exist
FDHoles == {154, 162, 165, 166, 175, 176, 178, 179, 180, 187, 194, 197, 198, 207, 208, 210, 211,
            212, 226, 238}
InstrFD(n, b, p, e) ==
    IF n > 255 \/ n \in FDHoles THEN Bad
    ELSE IF n <= 11 \/ n \in {92, 93} THEN Mem(XD(n), b, p, e)
    ELSE IF n = 12 \/ n = 13 THEN One(XD(n), Bytes(b, p, e, 16))
    ELSE IF n \in 21..34 THEN One(XD(n), U8(b, p, e))
    ELSE IF n \in 84..91
         THEN LET m == Mem(XD(n), b, p, e)  l == IF m.ok THEN U8(b, m.p, e) ELSE Bad
              IN IF l.ok THEN R(l.p, Append(m.v, l.v)) ELSE Bad
    ELSE R(p, <<XD(n)>>)
InstrFE(n, b, p, e) ==
    IF n = 3 THEN (IF p < e /\ b[p] = 0 THEN R(p + 1, <<XE(3)>>) ELSE Bad)
    ELSE IF n \in 0..2 \/ n \in 16..78 THEN Mem(XE(n), b, p, e)
    ELSE Bad

Instr(b, p0, e) ==
    IF p0 >= e THEN Bad
    ELSE LET op == b[p0]  p == p0 + 1 IN
    IF op \in 69..196 THEN R(p, <<op>>)
    ELSE IF op \in {32, 33, 34, 35, 36, 37, 38, 12, 13, 16, 18, 8, 210, 63, 64}
         THEN One(op, U32(b, p, e))
    ELSE IF op = 65 THEN One(op, S32(b, p, e))
    ELSE IF op = 66 THEN One(op, S64(b, p, e))
    ELSE IF op = 67 THEN One(op, Bytes(b, p, e, 4))
    ELSE IF op = 68 THEN One(op, Bytes(b, p, e, 8))
    ELSE IF op \in {0, 1, 5, 10, 11, 15, 26, 27, 209} THEN R(p, <<op>>)
    ELSE IF op \in {2, 3, 4} THEN One(op, S33(b, p, e))
    ELSE IF op \in 40..62 THEN Mem(op, b, p, e)
    ELSE IF op \in {17, 19} THEN TwoU(op, b, p, e)
    ELSE IF op = 14
         THEN LET v == Vec(b, p, e, U32)  d == IF v.ok THEN U32(b, v.p, e) ELSE Bad
              IN IF d.ok THEN R(d.p, <<op, v.v, d.v>>) ELSE Bad
    ELSE IF op = 28 THEN One(op, Vec(b, p, e, ValType))
    ELSE IF op = 208 THEN One(op, OneOf(b, p, e, RefTypes))
    ELSE IF op = 31
         THEN LET t == S33(b, p, e)  c == IF t.ok THEN Vec(b, t.p, e, CatchP) ELSE Bad
              IN IF c.ok THEN R(c.p, <<op, t.v, c.v>>) ELSE Bad
    ELSE IF op \in {252, 253, 254}
         THEN LET n == U32(b, p, e) IN
              IF ~n.ok THEN Bad
              ELSE IF op = 252 THEN InstrFC(n.v, b, n.p, e)
              ELSE IF op = 253 THEN InstrFD(n.v, b, n.p, e)
              ELSE InstrFE(n.v, b, n.p, e)
    ELSE Bad

\* an expression: instructions up to the end that closes it (included).
\* a: [p, d (open blocks), done, ok, v]
ExprStep(b, e, a) ==
    IF a.done THEN a
    ELSE LET r == Instr(b, a.p, e) IN
         IF ~r.ok THEN [a EXCEPT !.done = TRUE, !.ok = FALSE]
         ELSE LET op == r.v[1]
                  d == IF op \in {2, 3, 4, 31} THEN a.d + 1 ELSE IF op = 11 THEN a.d - 1 ELSE a.d
              IN [a EXCEPT !.p = r.p, !.v = Append(@, r.v), !.d = d, !.done = d = 0]
Expr(b, p, e) ==
    IF p >= e THEN Bad
    ELSE LET r == FoldLeft(LAMBDA a, i : ExprStep(b, e, a),
                           [p |-> p, d |-> 1, done |-> FALSE, ok |-> TRUE, v |-> <<>>],
                           NatSeq(e - p))
         IN IF r.done /\ r.ok THEN R(r.p, r.v) ELSE Bad

GlobalP(b, p, e) == Then(GlobalTypeP(b, p, e), LAMBDA q : Expr(b, q, e),
                         LAMBDA t, x : [t |-> t.t, mut |-> t.mut, init |-> x])
\* element segment: [mode 0 active 1 passive 2 declarative, table, off, et, x (exprs?), init]
ElemP(b, p0, e) ==
    LET f == U32(b, p0, e) IN
    IF ~f.ok THEN Bad
    ELSE IF f.v > 7 THEN Bad
    ELSE LET active == f.v % 2 = 0
             expr == f.v >= 4
             tb == IF f.v \in {2, 6} THEN U32(b, f.p, e) ELSE R(f.p, 0)
             off == IF ~tb.ok THEN Bad ELSE IF active THEN Expr(b, tb.p, e) ELSE R(tb.p, <<>>)
             et == IF ~off.ok THEN Bad
                   ELSE IF f.v \in {0, 4} THEN R(off.p, 112)
                   ELSE IF expr THEN OneOf(b, off.p, e, RefTypes)
                   ELSE LET k == OneOf(b, off.p, e, {0}) IN IF k.ok THEN R(k.p, 112) ELSE Bad
             init == IF ~et.ok THEN Bad
                     ELSE IF expr THEN Vec(b, et.p, e, Expr) ELSE Vec(b, et.p, e, U32)
         IN IF ~init.ok THEN Bad
            ELSE R(init.p, [mode |-> IF active THEN 0 ELSE IF f.v \in {1, 5} THEN 1 ELSE 2,
                            table |-> tb.v, off |-> off.v, et |-> et.v, x |-> expr,
                            init |-> init.v])
DataP(b, p0, e) ==
    LET f == U32(b, p0, e) IN
    IF ~f.ok THEN Bad
    ELSE IF f.v > 2 THEN Bad
    ELSE LET m == IF f.v = 2 THEN U32(b, f.p, e) ELSE R(f.p, 0)
             off == IF ~m.ok THEN Bad ELSE IF f.v = 1 THEN R(m.p, <<>>) ELSE Expr(b, m.p, e)
             n == IF off.ok THEN U32(b, off.p, e) ELSE Bad
             s == IF n.ok THEN Bytes(b, n.p, e, n.v) ELSE Bad
         IN IF s.ok THEN R(s.p, [active |-> f.v # 1, mem |-> m.v, off |-> off.v, init |-> s.v])
            ELSE Bad
LocalsP(b, p, e) ==   \* <<count word, type>>
    Then(U32W(b, p, e), LAMBDA q : ValType(b, q, e), Pair)
CodeP(b, p, e) ==
    LET n == U32(b, p, e) IN
    IF ~n.ok THEN Bad
    ELSE IF n.v > e - n.p THEN Bad
    ELSE LET ce == n.p + n.v
             l == Vec(b, n.p, ce, LocalsP)
             x == IF l.ok THEN Expr(b, l.p, ce) ELSE Bad
             tot == FoldLeft(LAMBDA a, c : Add(a, ZX(c[1], 8)), Zeros(8), l.v)
         IN IF ~x.ok THEN Bad
            ELSE IF x.p # ce \/ SubSeq(tot, 5, 8) # Zeros(4) THEN Bad
            ELSE R(ce, [locals |-> l.v, code |-> x.v])

\* dylink.0: a sequence of subsections, at least one; the known ones (1, 2, 4)
\* at most once and well formed
DyImp(b, p, e) ==
    LET m == Name(b, p, e)  n == IF m.ok THEN Name(b, m.p, e) ELSE Bad
        f == IF n.ok THEN S32(b, n.p, e) ELSE Bad
    IN IF f.ok THEN R(f.p, 0) ELSE Bad
DySub(k, b, p, e) ==   \* is the payload b[p..e-1] of subsection k well formed
    LET r == CASE k = 1 -> Rep1(b, p, e, 4, U32)
               [] k = 2 -> Vec(b, p, e, Name)
               [] k = 4 -> Vec(b, p, e, DyImp)
               [] OTHER -> R(e, 0)
    IN r.ok /\ r.p = e
DylinkOk(b, p, e) ==
    LET r == FoldLeft(LAMBDA a, i :
               IF a.done THEN a
               ELSE LET k == U8(b, a.p, e)
                        n == IF k.ok THEN U32(b, k.p, e) ELSE Bad
                        good == IF ~n.ok THEN FALSE
                                ELSE IF n.v > e - n.p THEN FALSE
                                ELSE k.v \notin a.seen /\ DySub(k.v, b, n.p, n.p + n.v)
                    IN IF ~good THEN [a EXCEPT !.done = TRUE, !.ok = FALSE]
                       ELSE [a EXCEPT !.p = n.p + n.v, !.done = n.p + n.v = e,
                                      !.seen = IF k.v \in {1, 2, 4} THEN @ \cup {k.v} ELSE @],
               [p |-> p, done |-> FALSE, ok |-> TRUE, seen |-> {}], NatSeq(e - p + 1))
    IN r.ok /\ r.done
DylinkName == <<100, 121, 108, 105, 110, 107, 46, 48>>

EmptyMod == [types |-> <<>>, imports |-> <<>>, funcs |-> <<>>, tables |-> <<>>, mems |-> <<>>,
             tags |-> <<>>, globals |-> <<>>, exports |-> <<>>, start |-> -1, elems |-> <<>>,
             dcount |-> -1, codes |-> <<>>, datas |-> <<>>, dylink |-> FALSE]

\* rank of each section id in the required order
Rank == <<1, 2, 3, 4, 5, 7, 8, 9, 10, 12, 13, 11, 6>>
Whole(r, e, m) == IF r.ok /\ r.p = e THEN m ELSE [bad |-> TRUE]
Section(id, b, p, e, m) ==
    CASE id = 1 -> LET r == Vec(b, p, e, FuncTypeP) IN Whole(r, e, [m EXCEPT !.types = r.v])
      [] id = 2 -> LET r == Vec(b, p, e, ImportP) IN Whole(r, e, [m EXCEPT !.imports = r.v])
      [] id = 3 -> LET r == Vec(b, p, e, U32) IN Whole(r, e, [m EXCEPT !.funcs = r.v])
      [] id = 4 -> LET r == Vec(b, p, e, TableTypeP) IN Whole(r, e, [m EXCEPT !.tables = r.v])
      [] id = 5 -> LET r == Vec(b, p, e, MemTypeP) IN Whole(r, e, [m EXCEPT !.mems = r.v])
      [] id = 6 -> LET r == Vec(b, p, e, GlobalP) IN Whole(r, e, [m EXCEPT !.globals = r.v])
      [] id = 7 -> LET r == Vec(b, p, e, ExportP) IN Whole(r, e, [m EXCEPT !.exports = r.v])
      [] id = 8 -> LET r == U32(b, p, e) IN Whole(r, e, [m EXCEPT !.start = r.v])
      [] id = 9 -> LET r == Vec(b, p, e, ElemP) IN Whole(r, e, [m EXCEPT !.elems = r.v])
      [] id = 10 -> LET r == Vec(b, p, e, CodeP) IN Whole(r, e, [m EXCEPT !.codes = r.v])
      [] id = 11 -> LET r == Vec(b, p, e, DataP) IN Whole(r, e, [m EXCEPT !.datas = r.v])
      [] id = 12 -> LET r == U32(b, p, e) IN Whole(r, e, [m EXCEPT !.dcount = r.v])
      [] id = 13 -> LET r == Vec(b, p, e, TagP) IN Whole(r, e, [m EXCEPT !.tags = r.v])
Custom(b, p, e, m) ==
    LET n == Name(b, p, e) IN
    IF ~n.ok THEN [bad |-> TRUE]
    ELSE IF n.v # DylinkName THEN m
    ELSE IF m.dylink \/ ~DylinkOk(b, n.p, e) THEN [bad |-> TRUE]
    ELSE [m EXCEPT !.dylink = TRUE]

Malformed == [ok |-> FALSE]
SecStep(b, e, a) ==
    IF a.done THEN a
    ELSE IF a.p = e THEN [a EXCEPT !.done = TRUE]
    ELSE LET n == U32(b, a.p + 1, e)
             id == b[a.p]
         IN IF ~n.ok \/ id > 13 THEN [a EXCEPT !.done = TRUE, !.ok = FALSE]
            ELSE IF n.v > e - n.p \/ (id > 0 /\ Rank[IF id = 0 THEN 1 ELSE id] <= a.rank)
                 THEN [a EXCEPT !.done = TRUE, !.ok = FALSE]
            ELSE LET se == n.p + n.v
                     m == IF id = 0 THEN Custom(b, n.p, se, a.m) ELSE Section(id, b, n.p, se, a.m)
                 IN IF "bad" \in DOMAIN m THEN [a EXCEPT !.done = TRUE, !.ok = FALSE]
                    ELSE [a EXCEPT !.p = se, !.m = m, !.rank = IF id = 0 THEN @ ELSE Rank[id]]
Magic == <<0, 97, 115, 109, 1, 0, 0, 0>>
\* [ok, m]
Decode(b) ==
    IF Len(b) < 8 THEN Malformed
    ELSE IF SubSeq(b, 1, 8) # Magic THEN Malformed
    ELSE LET e == Len(b) + 1
             r == FoldLeft(LAMBDA a, i : SecStep(b, e, a),
                           [p |-> 9, done |-> FALSE, ok |-> TRUE, rank |-> 0, m |-> EmptyMod],
                           NatSeq(Len(b) - 6))
         IN IF ~r.ok THEN Malformed
            ELSE IF Len(r.m.funcs) # Len(r.m.codes) THEN Malformed
            ELSE IF r.m.dcount # -1 /\ r.m.dcount # Len(r.m.datas) THEN Malformed
            ELSE [ok |-> TRUE, m |-> r.m]
=============================================================================
