-------------------------------- MODULE Simd --------------------------------
(***************************************************************************)
(* Semantics of the v128 instructions (everything that does not access     *)
(* memory), by opcode n of the 0xFD page.  A v128 is a 16 byte word.       *)
(* Results: [k |-> "v", v |-> bytes] or, when lanes may be any of several  *)
(* NaNs, [k |-> "lanes", l |-> sequence of lane results of IEEE].          *)
(***************************************************************************)
EXTENDS Num

\* lane i (1-based) of width w bytes
Lane(v, w, i) == SubSeq(v, (i - 1) * w + 1, i * w)
NL(w) == 16 \div w
Cat(n, f(_)) == FoldLeft(LAMBDA a, i : a \o f(i), <<>>, Idx(n))
\* lane-wise unary / binary operations on words
L1(v, w, f(_)) == V(Cat(NL(w), LAMBDA i : f(Lane(v, w, i))))
L2(a, b, w, f(_, _)) == V(Cat(NL(w), LAMBDA i : f(Lane(a, w, i), Lane(b, w, i))))
\* lanes that are IEEE results
Lanes(s) == IF \A i \in DOMAIN s : s[i].k = "v"
            THEN V(FoldLeft(LAMBDA a, x : a \o x.v, <<>>, s))
            ELSE [k |-> "lanes", l |-> s]
F1(v, w, f(_)) == Lanes(Tab(NL(w), LAMBDA i : f(Lane(v, w, i))))
F2(a, b, w, f(_, _)) == Lanes(Tab(NL(w), LAMBDA i : f(Lane(a, w, i), Lane(b, w, i))))
VAllowed(r, b) ==
    IF r.k = "v" THEN b = r.v
    ELSE /\ Len(b) = 16
         /\ LET w == 16 \div Len(r.l) IN \A i \in DOMAIN r.l : Allowed(r.l[i], Lane(b, w, i))

Mask(w, c) == IF c THEN Ones(w) ELSE Zeros(w)
VCmp(a, b, w, c(_, _)) == L2(a, b, w, LAMBDA x, y : Mask(w, c(x, y)))
LeastS(x, y) == IF LtS(y, x) THEN y ELSE x
LeastU(x, y) == IF LtU(y, x) THEN y ELSE x
MostS(x, y) == IF LtS(x, y) THEN y ELSE x
MostU(x, y) == IF LtU(x, y) THEN y ELSE x
AbsL(x) == IF SignBit(x) = 1 THEN Neg(x) ELSE x
\* clamp an integer into w bytes
ClampS(v, w) == LET m == Pow2(8 * w - 1) IN FromInt(IF v < -m THEN -m ELSE IF v > m - 1 THEN m - 1 ELSE v, w)
ClampU(v, w) == LET m == Pow2(8 * w) IN FromNat(IF v < 0 THEN 0 ELSE IF v > m - 1 THEN m - 1 ELSE v, w)
Avgr(x, y) == FromNat((ToNat(x) + ToNat(y) + 1) \div 2, Len(x))
\* 8/16 bit lanes as TLC integers
SI(x) == ToSInt(x)
UI(x) == ToNat(x)
\* narrowing of 16 and 32 bit lanes; a 32 bit lane is compared as a word
NarrowS(x, w) ==    \* x of 2w bytes, signed saturation
    IF Len(x) = 2 THEN ClampS(SI(x), w)
    ELSE IF LtS(x, SX(MinS(w), 4)) THEN MinS(w) ELSE IF LtS(SX(MaxS(w), 4), x) THEN MaxS(w)
    ELSE SubSeq(x, 1, w)
NarrowU(x, w) ==
    IF SignBit(x) = 1 THEN Zeros(w)
    ELSE IF LtU(ZX(Ones(w), Len(x)), x) THEN Ones(w) ELSE SubSeq(x, 1, w)
\* the n-th lane of the half (0 low, 1 high) of v
Half(v, w, h, i) == Lane(v, w, i + h * (NL(w) \div 2))
Ext(x, s) == IF s THEN SX(x, 2 * Len(x)) ELSE ZX(x, 2 * Len(x))
Extend(v, w, h, s) == V(Cat(NL(w) \div 2, LAMBDA i : Ext(Half(v, w, h, i), s)))
ExtMul(a, b, w, h, s) ==
    V(Cat(NL(w) \div 2, LAMBDA i : Mul(Ext(Half(a, w, h, i), s), Ext(Half(b, w, h, i), s))))
ExtAdd(v, w, s) ==
    V(Cat(NL(w) \div 2, LAMBDA i : Add(Ext(Lane(v, w, 2 * i - 1), s), Ext(Lane(v, w, 2 * i), s))))
Q15(x, y) ==   \* (x * y + 0x4000) >> 15, saturated
    LET p == SI(x) * SI(y) + 16384 IN ClampS(p \div 32768, 2)
Dot(a, b) == V(Cat(4, LAMBDA i :
    LET m(j) == Mul(SX(Lane(a, 2, j), 4), SX(Lane(b, 2, j), 4))
    IN Add(m(2 * i - 1), m(2 * i))))
VShift(v, w, c, k) ==
    LET n == c[1] % (8 * w) IN
    L1(v, w, LAMBDA x : CASE k = 0 -> ShlN(x, n) [] k = 1 -> ShrSN(x, n) [] k = 2 -> ShrUN(x, n))
BitMask(v, w) == V(FromNat(FoldLeft(LAMBDA a, i : a + SignBit(Lane(v, w, i)) * Pow2(i - 1), 0, Idx(NL(w))), 4))
PMin(x, y) == V(IF FLt(y, x) THEN y ELSE x)
PMax(x, y) == V(IF FLt(x, y) THEN y ELSE x)

\* comparison opcode -> <<lane width, predicate index of ICmp / FCmpOp>>
VCmpOp(n, a, b) ==
    CASE n \in 35..44 -> VCmp(a, b, 1, LAMBDA x, y : ICmp(n - 35, x, y))
      [] n \in 45..54 -> VCmp(a, b, 2, LAMBDA x, y : ICmp(n - 45, x, y))
      [] n \in 55..64 -> VCmp(a, b, 4, LAMBDA x, y : ICmp(n - 55, x, y))
      [] n \in 65..70 -> VCmp(a, b, 4, LAMBDA x, y : FCmpOp(n - 65, x, y))
      [] n \in 71..76 -> VCmp(a, b, 8, LAMBDA x, y : FCmpOp(n - 71, x, y))
      [] n \in 214..219 -> VCmp(a, b, 8, LAMBDA x, y : ICmp(<<0, 1, 2, 4, 6, 8>>[n - 213], x, y))

V1Op(n, a) ==
    CASE n = 77 -> V(BitNot(a))
      [] n = 94 -> Lanes(<<FCvt(Lane(a, 8, 1), 4), FCvt(Lane(a, 8, 2), 4), V(Zeros(4)), V(Zeros(4))>>)
      [] n = 95 -> Lanes(<<FCvt(Lane(a, 4, 1), 8), FCvt(Lane(a, 4, 2), 8)>>)
      [] n = 96 -> L1(a, 1, AbsL)   [] n = 128 -> L1(a, 2, AbsL)
      [] n = 160 -> L1(a, 4, AbsL)  [] n = 192 -> L1(a, 8, AbsL)
      [] n = 97 -> L1(a, 1, Neg)    [] n = 129 -> L1(a, 2, Neg)
      [] n = 161 -> L1(a, 4, Neg)   [] n = 193 -> L1(a, 8, Neg)
      [] n = 98 -> L1(a, 1, LAMBDA x : <<PopByte[x[1] + 1]>>)
      [] n \in 103..106 -> F1(a, 4, LAMBDA x : FUn(n - 101, x))
      [] n = 116 -> F1(a, 8, LAMBDA x : FUn(2, x))
      [] n = 117 -> F1(a, 8, LAMBDA x : FUn(3, x))
      [] n = 122 -> F1(a, 8, LAMBDA x : FUn(4, x))
      [] n = 148 -> F1(a, 8, LAMBDA x : FUn(5, x))
      [] n = 124 -> ExtAdd(a, 1, TRUE)  [] n = 125 -> ExtAdd(a, 1, FALSE)
      [] n = 126 -> ExtAdd(a, 2, TRUE)  [] n = 127 -> ExtAdd(a, 2, FALSE)
      [] n \in 135..138 -> Extend(a, 1, (n - 135) % 2, n < 137)
      [] n \in 167..170 -> Extend(a, 2, (n - 167) % 2, n < 169)
      [] n \in 199..202 -> Extend(a, 4, (n - 199) % 2, n < 201)
      [] n = 224 -> L1(a, 4, FAbs)  [] n = 225 -> L1(a, 4, FNegB)
      [] n = 227 -> F1(a, 4, FSqrt)
      [] n = 236 -> L1(a, 8, FAbs)  [] n = 237 -> L1(a, 8, FNegB)
      [] n = 239 -> F1(a, 8, FSqrt)
      [] n \in {248, 249} -> F1(a, 4, LAMBDA x : TruncSat(x, 4, n = 248))
      [] n = 250 -> L1(a, 4, LAMBDA x : FromS(x, 4))
      [] n = 251 -> L1(a, 4, LAMBDA x : FromU(x, 4))
      [] n \in {252, 253} -> Lanes(<<TruncSat(Lane(a, 8, 1), 4, n = 252),
                                     TruncSat(Lane(a, 8, 2), 4, n = 252), V(Zeros(8))>>)
      [] n = 254 -> V(FromS(Lane(a, 4, 1), 8) \o FromS(Lane(a, 4, 2), 8))
      [] n = 255 -> V(FromU(Lane(a, 4, 1), 8) \o FromU(Lane(a, 4, 2), 8))

\* integer binary operation k on lanes of width w
\* 0 add 1 add_sat_s 2 add_sat_u 3 sub 4 sub_sat_s 5 sub_sat_u
VArith(k, a, b, w) ==
    CASE k = 0 -> L2(a, b, w, Add)
      [] k = 1 -> L2(a, b, w, LAMBDA x, y : ClampS(SI(x) + SI(y), w))
      [] k = 2 -> L2(a, b, w, LAMBDA x, y : ClampU(UI(x) + UI(y), w))
      [] k = 3 -> L2(a, b, w, Sub)
      [] k = 4 -> L2(a, b, w, LAMBDA x, y : ClampS(SI(x) - SI(y), w))
      [] k = 5 -> L2(a, b, w, LAMBDA x, y : ClampU(UI(x) - UI(y), w))
VMinMax(k, a, b, w) ==
    CASE k = 0 -> L2(a, b, w, LeastS) [] k = 1 -> L2(a, b, w, LeastU)
      [] k = 2 -> L2(a, b, w, MostS) [] k = 3 -> L2(a, b, w, MostU)
Swizzle(a, s) == V(Tab(16, LAMBDA i : IF s[i] < 16 THEN a[s[i] + 1] ELSE 0))
Shuffle(a, b, imm) == V(Tab(16, LAMBDA i : IF imm[i] < 16 THEN a[imm[i] + 1] ELSE b[imm[i] - 15]))
VFBin(k, a, b, w) ==   \* add sub mul div min max pmin pmax
    CASE k < 6 -> F2(a, b, w, LAMBDA x, y : FBin(k, x, y))
      [] k = 6 -> F2(a, b, w, PMin)
      [] k = 7 -> F2(a, b, w, PMax)
NarrowOp(a, b, w, s) ==   \* from 2w to w
    LET f(x) == IF s THEN NarrowS(x, w) ELSE NarrowU(x, w) IN
    V(Cat(NL(2 * w), LAMBDA i : f(Lane(a, 2 * w, i))) \o Cat(NL(2 * w), LAMBDA i : f(Lane(b, 2 * w, i))))

V2Op(n, a, b) ==
    CASE n \in 35..76 -> VCmpOp(n, a, b)
      [] n = 14 -> Swizzle(a, b)
      [] n = 78 -> V(BAnd(a, b))
      [] n = 79 -> V(BAnd(a, BitNot(b)))
      [] n = 80 -> V(BOr(a, b))
      [] n = 81 -> V(BXor(a, b))
      [] n \in {101, 102} -> NarrowOp(a, b, 1, n = 101)
      [] n \in {133, 134} -> NarrowOp(a, b, 2, n = 133)
      [] n \in 110..115 -> VArith(n - 110, a, b, 1)
      [] n \in 142..147 -> VArith(n - 142, a, b, 2)
      [] n = 174 -> VArith(0, a, b, 4) [] n = 177 -> VArith(3, a, b, 4)
      [] n = 206 -> VArith(0, a, b, 8) [] n = 209 -> VArith(3, a, b, 8)
      [] n \in 118..121 -> VMinMax(n - 118, a, b, 1)
      [] n \in 150..153 -> VMinMax(n - 150, a, b, 2)
      [] n \in 182..185 -> VMinMax(n - 182, a, b, 4)
      [] n = 123 -> L2(a, b, 1, Avgr) [] n = 155 -> L2(a, b, 2, Avgr)
      [] n = 130 -> L2(a, b, 2, Q15)
      [] n = 149 -> L2(a, b, 2, Mul) [] n = 181 -> L2(a, b, 4, Mul) [] n = 213 -> L2(a, b, 8, Mul)
      [] n = 186 -> Dot(a, b)
      [] n \in 156..159 -> ExtMul(a, b, 1, n % 2, n < 158)
      [] n \in 188..191 -> ExtMul(a, b, 2, n % 2, n < 190)
      [] n \in 220..223 -> ExtMul(a, b, 4, n % 2, n < 222)
      [] n \in 214..219 -> VCmpOp(n, a, b)
      [] n \in 228..235 -> VFBin(n - 228, a, b, 4)
      [] n \in 240..247 -> VFBin(n - 240, a, b, 8)

\* width of the lanes of splat / extract / replace
LaneW(n) == CASE n \in {15, 21, 22, 23} -> 1 [] n \in {16, 24, 25, 26} -> 2
              [] n \in {17, 19, 27, 28, 31, 32} -> 4 [] n \in {18, 20, 29, 30, 33, 34} -> 8
Splat(n, x) == LET w == LaneW(n) IN V(Cat(NL(w), LAMBDA i : SubSeq(x, 1, w)))
Extract(n, v, l) ==
    LET x == Lane(v, LaneW(n), l + 1) IN
    CASE n \in {21, 24} -> V(SX(x, 4)) [] n \in {22, 25} -> V(ZX(x, 4)) [] OTHER -> V(x)
SetLane(v, w, l, x) == SubSeq(v, 1, l * w) \o SubSeq(x, 1, w) \o SubSeq(v, (l + 1) * w + 1, 16)
\* number of shift group: 107.. 139.. 171.. 203..
ShiftOp(n, v, c) ==
    CASE n \in 107..109 -> VShift(v, 1, c, n - 107) [] n \in 139..141 -> VShift(v, 2, c, n - 139)
      [] n \in 171..173 -> VShift(v, 4, c, n - 171) [] n \in 203..205 -> VShift(v, 8, c, n - 203)
TestOp(n, v) ==
    CASE n = 83 -> Bool(~IsZero(v))
      [] n \in {99, 131, 163, 195} ->
           LET w == Pow2((n - 99) \div 32) IN Bool(\A i \in 1..NL(w) : ~IsZero(Lane(v, w, i)))
      [] n \in {100, 132, 164, 196} -> BitMask(v, Pow2((n - 100) \div 32))
IsShiftOp(n) == n \in {107, 108, 109, 139, 140, 141, 171, 172, 173, 203, 204, 205}
IsTestOp(n) == n \in {83, 99, 100, 131, 132, 163, 164, 195, 196}
V1Ops == {77, 94, 95, 96, 97, 98, 103, 104, 105, 106, 116, 117, 122, 148, 124, 125, 126, 127,
          128, 129, 135, 136, 137, 138, 160, 161, 167, 168, 169, 170, 192, 193, 199, 200, 201, 202,
          224, 225, 227, 236, 237, 239} \cup 248..255

\* operands as on the stack (first popped last); imm: lane index or shuffle mask
SimdOp(n, imm, a) ==
    IF n = 12 THEN V(imm)
    ELSE IF n = 13 THEN Shuffle(a[1], a[2], imm)
    ELSE IF n \in 15..20 THEN Splat(n, a[1])
    ELSE IF n \in 21..34
         THEN IF n \in {23, 26, 28, 30, 32, 34} THEN V(SetLane(a[1], LaneW(n), imm, a[2]))
              ELSE Extract(n, a[1], imm)
    ELSE IF n = 82 THEN V(BOr(BAnd(a[1], a[3]), BAnd(a[2], BitNot(a[3]))))
    ELSE IF IsShiftOp(n) THEN ShiftOp(n, a[1], a[2])
    ELSE IF IsTestOp(n) THEN TestOp(n, a[1])
    ELSE IF n \in V1Ops THEN V1Op(n, a[1])
    ELSE V2Op(n, a[1], a[2])
=============================================================================
