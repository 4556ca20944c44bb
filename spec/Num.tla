--------------------------------- MODULE Num ---------------------------------
(***************************************************************************)
(* Semantics of the numeric instructions, indexed by opcode.               *)
(* Op ids: the one byte opcodes 0x45..0xC4, and 0xFC00 + n for the         *)
(* saturating truncations.  A result is [k |-> "v", v], a NaN set (see     *)
(* IEEE) or [k |-> "trap", t] with                                         *)
(*    t \in {"div0", "ovf", "conv"}                                        *)
(***************************************************************************)
EXTENDS IEEE

Trap(t) == [k |-> "trap", t |-> t]
Bool(b) == V(IF b THEN <<1, 0, 0, 0>> ELSE <<0, 0, 0, 0>>)

\* shift count modulo the width (a power of two <= 64)
ShCount(b, n) == b[1] % (8 * n)
RotL(a, k) == IF k = 0 THEN a ELSE BOr(ShlN(a, k), ShrUN(a, 8 * Len(a) - k))

DivU(a, b) == IF IsZero(b) THEN Trap("div0") ELSE V(DivModU(a, b)[1])
RemU(a, b) == IF IsZero(b) THEN Trap("div0") ELSE V(DivModU(a, b)[2])
AbsW(a) == IF SignBit(a) = 1 THEN Neg(a) ELSE a
DivS(a, b) == IF IsZero(b) THEN Trap("div0")
              ELSE IF a = MinS(Len(a)) /\ b = Ones(Len(a)) THEN Trap("ovf")
              ELSE LET q == DivModU(AbsW(a), AbsW(b))[1]
                   IN V(IF SignBit(a) # SignBit(b) THEN Neg(q) ELSE q)
RemS(a, b) == IF IsZero(b) THEN Trap("div0")
              ELSE LET r == DivModU(AbsW(a), AbsW(b))[2]
                   IN V(IF SignBit(a) = 1 THEN Neg(r) ELSE r)

\* comparison k = 0..9: eq ne lt_s lt_u gt_s gt_u le_s le_u ge_s ge_u
ICmp(k, a, b) ==
    CASE k = 0 -> a = b
      [] k = 1 -> a # b
      [] k = 2 -> LtS(a, b)
      [] k = 3 -> LtU(a, b)
      [] k = 4 -> LtS(b, a)
      [] k = 5 -> LtU(b, a)
      [] k = 6 -> ~LtS(b, a)
      [] k = 7 -> ~LtU(b, a)
      [] k = 8 -> ~LtS(a, b)
      [] k = 9 -> ~LtU(a, b)
\* k = 0..5: eq ne lt gt le ge
FCmpOp(k, a, b) ==
    CASE k = 0 -> FEq(a, b)
      [] k = 1 -> ~FEq(a, b)
      [] k = 2 -> FLt(a, b)
      [] k = 3 -> FGt(a, b)
      [] k = 4 -> FLe(a, b)
      [] k = 5 -> FGe(a, b)
\* k = 0..14: add sub mul div_s div_u rem_s rem_u and or xor shl shr_s shr_u rotl rotr
IBin(k, a, b) ==
    LET n == Len(a)  c == ShCount(b, n) IN
    CASE k = 0 -> V(Add(a, b))
      [] k = 1 -> V(Sub(a, b))
      [] k = 2 -> V(Mul(a, b))
      [] k = 3 -> DivS(a, b)
      [] k = 4 -> DivU(a, b)
      [] k = 5 -> RemS(a, b)
      [] k = 6 -> RemU(a, b)
      [] k = 7 -> V(BAnd(a, b))
      [] k = 8 -> V(BOr(a, b))
      [] k = 9 -> V(BXor(a, b))
      [] k = 10 -> V(ShlN(a, c))
      [] k = 11 -> V(ShrSN(a, c))
      [] k = 12 -> V(ShrUN(a, c))
      [] k = 13 -> V(RotL(a, c))
      [] k = 14 -> V(RotL(a, (8 * n - c) % (8 * n)))
\* k = 0..2: clz ctz popcnt
IUn(k, a) == V(FromNat(CASE k = 0 -> Clz(a) [] k = 1 -> Ctz(a) [] k = 2 -> PopCnt(a), Len(a)))
\* k = 0..6: abs neg ceil floor trunc nearest sqrt
FUn(k, a) ==
    CASE k = 0 -> V(FAbs(a))
      [] k = 1 -> V(FNegB(a))
      [] k = 2 -> RoundInt(a, "ceil")
      [] k = 3 -> RoundInt(a, "floor")
      [] k = 4 -> RoundInt(a, "trunc")
      [] k = 5 -> RoundInt(a, "nearest")
      [] k = 6 -> FSqrt(a)
\* k = 0..6: add sub mul div min max copysign
FBin(k, a, b) ==
    CASE k = 0 -> FAdd(a, b)
      [] k = 1 -> FSub(a, b)
      [] k = 2 -> FMul(a, b)
      [] k = 3 -> FDiv(a, b)
      [] k = 4 -> FMin(a, b)
      [] k = 5 -> FMax(a, b)
      [] k = 6 -> V(FCopysign(a, b))

TruncTrap(a, n, signed) == LET r == TruncTo(a, n, signed) IN
    IF r.k = "v" THEN r ELSE IF r.k = "nan" THEN Trap("conv") ELSE Trap("ovf")
TruncSat(a, n, signed) == LET r == TruncTo(a, n, signed) IN
    CASE r.k = "v" -> r
      [] r.k = "nan" -> V(Zeros(n))
      [] r.k = "low" -> V(IF signed THEN MinS(n) ELSE Zeros(n))
      [] r.k = "high" -> V(IF signed THEN MaxS(n) ELSE Ones(n))

\* 0xA7 .. 0xBF and 0xC0..0xC4 and 0xFC00..0xFC07
Cvt(op, a) ==
    CASE op = 167 -> V(SubSeq(a, 1, 4))
      [] op = 168 -> TruncTrap(a, 4, TRUE)
      [] op = 169 -> TruncTrap(a, 4, FALSE)
      [] op = 170 -> TruncTrap(a, 4, TRUE)
      [] op = 171 -> TruncTrap(a, 4, FALSE)
      [] op = 172 -> V(SX(a, 8))
      [] op = 173 -> V(ZX(a, 8))
      [] op = 174 -> TruncTrap(a, 8, TRUE)
      [] op = 175 -> TruncTrap(a, 8, FALSE)
      [] op = 176 -> TruncTrap(a, 8, TRUE)
      [] op = 177 -> TruncTrap(a, 8, FALSE)
      [] op = 178 -> V(FromS(a, 4))
      [] op = 179 -> V(FromU(a, 4))
      [] op = 180 -> V(FromS(a, 4))
      [] op = 181 -> V(FromU(a, 4))
      [] op = 182 -> FCvt(a, 4)
      [] op = 183 -> V(FromS(a, 8))
      [] op = 184 -> V(FromU(a, 8))
      [] op = 185 -> V(FromS(a, 8))
      [] op = 186 -> V(FromU(a, 8))
      [] op = 187 -> FCvt(a, 8)
      [] op \in 188..191 -> V(a)
      [] op \in {192, 194} -> V(SX(SubSeq(a, 1, 1), Len(a)))
      [] op \in {193, 195} -> V(SX(SubSeq(a, 1, 2), Len(a)))
      [] op = 196 -> V(SX(SubSeq(a, 1, 4), 8))
      [] op \in 64512..64519 ->
           LET k == op - 64512 IN TruncSat(a, IF k < 4 THEN 4 ELSE 8, k % 2 = 0)

NumUn(op, a) ==
    CASE op \in {69, 80} -> Bool(IsZero(a))
      [] op \in 103..105 -> IUn(op - 103, a)
      [] op \in 121..123 -> IUn(op - 121, a)
      [] op \in 139..145 -> FUn(op - 139, a)
      [] op \in 153..159 -> FUn(op - 153, a)
      [] OTHER -> Cvt(op, a)
NumBin(op, a, b) ==
    CASE op \in 70..79 -> Bool(ICmp(op - 70, a, b))
      [] op \in 81..90 -> Bool(ICmp(op - 81, a, b))
      [] op \in 91..96 -> Bool(FCmpOp(op - 91, a, b))
      [] op \in 97..102 -> Bool(FCmpOp(op - 97, a, b))
      [] op \in 106..120 -> IBin(op - 106, a, b)
      [] op \in 124..138 -> IBin(op - 124, a, b)
      [] op \in 146..152 -> FBin(op - 146, a, b)
      [] op \in 160..166 -> FBin(op - 160, a, b)

IsUnary(op) == op \in {69, 80} \cup (103..105) \cup (121..123) \cup (139..145)
                 \cup (153..159) \cup (167..196) \cup (64512..64519)
IsBinary(op) == op \in (70..79) \cup (81..102) \cup (106..120) \cup (124..138)
                 \cup (146..152) \cup (160..166)
=============================================================================
