-------------------------------- MODULE IEEE --------------------------------
(***************************************************************************)
(* IEEE 754 binary32 / binary64 arithmetic, bit exact, on little-endian    *)
(* byte sequences (4 or 8 bytes).  A result is either                      *)
(*     [k |-> "v", v |-> bytes]     the exact bit pattern, or              *)
(*     [k |-> "nan", n |-> width, c |-> BOOLEAN]                           *)
(* the set of NaNs the WebAssembly specification allows: canonical NaNs    *)
(* only (c) or any arithmetic NaN.                                         *)
(***************************************************************************)
EXTENDS Word

MBits(n) == IF n = 4 THEN 23 ELSE 52
Bias(n) == IF n = 4 THEN 127 ELSE 1023
ExpMax(n) == IF n = 4 THEN 255 ELSE 2047
EMin(n) == 1 - Bias(n) - MBits(n)

FSign(a) == SignBit(a)
FExp(a) == IF Len(a) = 4 THEN (a[4] % 128) * 2 + (a[3] \div 128)
           ELSE (a[8] % 128) * 16 + (a[7] \div 16)
FMan(a) == IF Len(a) = 4 THEN <<a[1], a[2], a[3] % 128, 0>>
           ELSE <<a[1], a[2], a[3], a[4], a[5], a[6], a[7] % 16, 0>>
IsNaN(a) == FExp(a) = ExpMax(Len(a)) /\ ~IsZero(FMan(a))
IsInf(a) == FExp(a) = ExpMax(Len(a)) /\ IsZero(FMan(a))
IsFZero(a) == FExp(a) = 0 /\ IsZero(FMan(a))
QuietBit(a) == IF Len(a) = 4 THEN (a[3] \div 64) % 2 ELSE (a[7] \div 8) % 2
IsCanonNaN(a) == IF Len(a) = 4 THEN <<a[1], a[2], a[3]>> = <<0, 0, 192>> /\ a[4] % 128 = 127
                 ELSE SubSeq(a, 1, 6) = Zeros(6) /\ a[7] = 248 /\ a[8] % 128 = 127
IsArithNaN(a) == IsNaN(a) /\ QuietBit(a) = 1

V(b) == [k |-> "v", v |-> b]
NaNs(n, ops) == [k |-> "nan", n |-> n,
                 c |-> \A i \in DOMAIN ops : IsNaN(ops[i]) => IsCanonNaN(ops[i])]
\* does a concrete bit pattern belong to the result set
Allowed(res, b) == IF res.k = "v" THEN b = res.v
                   ELSE Len(b) = res.n /\ IF res.c THEN IsCanonNaN(b) ELSE IsArithNaN(b)

SetSign(a, s) == [a EXCEPT ![Len(a)] = (@ % 128) + 128 * s]
FZero(n, s) == SetSign(Zeros(n), s)
FInf(n, s) == SetSign(IF n = 4 THEN <<0, 0, 128, 127>> ELSE <<0, 0, 0, 0, 0, 0, 240, 127>>, s)
FOne(n, s) == SetSign(IF n = 4 THEN <<0, 0, 128, 63>> ELSE <<0, 0, 0, 0, 0, 0, 240, 63>>, s)

\* significand (8 bytes) and exponent of a finite number: value = sig * 2^exp
FSig(a) == LET m == ZX(FMan(a), 8) IN
           IF FExp(a) = 0 THEN m
           ELSE IF Len(a) = 4 THEN [m EXCEPT ![3] = @ + 128] ELSE [m EXCEPT ![7] = @ + 16]
FE(a) == LET e == FExp(a) IN (IF e = 0 THEN 1 ELSE e) - Bias(Len(a)) - MBits(Len(a))

AnyLow(a, k) ==   \* is any of the k low bits of a set
    \/ \E i \in 1..(IF k \div 8 > Len(a) THEN Len(a) ELSE k \div 8) : a[i] # 0
    \/ (k \div 8 < Len(a) /\ a[(k \div 8) + 1] % Pow2(k % 8) # 0)

(* round (sig + [0 < epsilon < 1 if sticky]) * 2^e to nearest, ties to even *)
RoundF(n, s, sig0, e, sticky) ==
    LET sig == ZX(sig0, IF Len(sig0) < n + 1 THEN n + 1 ELSE Len(sig0))
        l == BitLen(sig)
        m == MBits(n)
        q0 == e + l - (m + 1)
        q == IF q0 < EMin(n) THEN EMin(n) ELSE q0
        sh == q - e
        quot == IF sh <= 0 THEN ZX(ShlN(sig, -sh), n + 1)
                ELSE IF sh > l + 1 THEN Zeros(n + 1)
                ELSE ZX(ShrUN(Append(sig, 0), sh), n + 1)
        half == IF sh <= 0 \/ sh > l + 1 THEN 0 ELSE Bit(Append(sig, 0), sh - 1)
        rest == sticky \/ (IF sh <= 0 THEN FALSE ELSE IF sh > l + 1 THEN l > 0 ELSE AnyLow(sig, sh - 1))
        up == half = 1 /\ (rest \/ quot[1] % 2 = 1)
        rq == IF up THEN AddC(quot, Zeros(n + 1), 1)[2] ELSE quot
        lead == IF n = 4 THEN (rq[3] \div 128) + 2 * rq[4] ELSE (rq[7] \div 16) + 16 * rq[8]
        ef == (q - EMin(n)) + lead
    IN IF l = 0 /\ ~sticky THEN FZero(n, s)
       ELSE IF ef >= ExpMax(n) THEN FInf(n, s)
       ELSE LET man == IF n = 4 THEN <<rq[1], rq[2], rq[3] % 128>>
                       ELSE <<rq[1], rq[2], rq[3], rq[4], rq[5], rq[6], rq[7] % 16>>
            IN IF n = 4 THEN <<man[1], man[2], man[3] + 128 * (ef % 2), (ef \div 2) + 128 * s>>
               ELSE <<man[1], man[2], man[3], man[4], man[5], man[6],
                      man[7] + 16 * (ef % 16), (ef \div 16) + 128 * s>>

AddFinite(n, sa, siga, ea, sb, sigb, eb) ==  \* ea >= eb, not both zero
    LET d == ea - eb
        far == d > 60
    IN IF far
       THEN \* the low operand is below 1/16 ulp of the high one, or zero
            IF IsZero(sigb) THEN RoundF(n, sa, siga, ea, FALSE)
            ELSE IF IsZero(siga) THEN RoundF(n, sb, sigb, eb, FALSE)
            ELSE LET h == ShlN(ZX(siga, 9), 4) IN
                 IF sa = sb THEN RoundF(n, sa, h, ea - 4, TRUE)
                 ELSE RoundF(n, sa, Sub(h, FromNat(1, 9)), ea - 4, TRUE)
       ELSE LET x == ShlN(ZX(siga, 17), d)
                y == ZX(sigb, 17)
                c == CmpU(x, y)
            IN IF sa = sb THEN RoundF(n, sa, Add(x, y), eb, FALSE)
               ELSE IF c = 0 THEN FZero(n, 0)
               ELSE IF c = 1 THEN RoundF(n, sa, Sub(x, y), eb, FALSE)
               ELSE RoundF(n, sb, Sub(y, x), eb, FALSE)
FAdd(a, b) ==
    LET n == Len(a) IN
    IF IsNaN(a) \/ IsNaN(b) THEN NaNs(n, <<a, b>>)
    ELSE IF IsInf(a) THEN (IF IsInf(b) /\ FSign(a) # FSign(b) THEN NaNs(n, <<>>) ELSE V(a))
    ELSE IF IsInf(b) THEN V(b)
    ELSE IF IsFZero(a) /\ IsFZero(b) THEN V(IF FSign(a) = FSign(b) THEN a ELSE FZero(n, 0))
    ELSE IF FE(a) >= FE(b) THEN V(AddFinite(n, FSign(a), FSig(a), FE(a), FSign(b), FSig(b), FE(b)))
    ELSE V(AddFinite(n, FSign(b), FSig(b), FE(b), FSign(a), FSig(a), FE(a)))
FNegB(a) == FlipTop(a)
FSub(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaNs(Len(a), <<a, b>>) ELSE FAdd(a, FNegB(b))

XorS(a, b) == (FSign(a) + FSign(b)) % 2
FMul(a, b) ==
    LET n == Len(a)  s == XorS(a, b) IN
    IF IsNaN(a) \/ IsNaN(b) THEN NaNs(n, <<a, b>>)
    ELSE IF (IsInf(a) /\ IsFZero(b)) \/ (IsFZero(a) /\ IsInf(b)) THEN NaNs(n, <<>>)
    ELSE IF IsInf(a) \/ IsInf(b) THEN V(FInf(n, s))
    ELSE IF IsFZero(a) \/ IsFZero(b) THEN V(FZero(n, s))
    ELSE V(RoundF(n, s, MulFull(SubSeq(FSig(a), 1, n), SubSeq(FSig(b), 1, n)), FE(a) + FE(b), FALSE))

\* significand shifted left to exactly MBits+1 bits, with the matching exponent
NormSig(a) == LET sig == FSig(a)  k == (MBits(Len(a)) + 1) - BitLen(sig)
              IN <<ShlN(sig, k), FE(a) - k>>
Shl1(a) == Shl1In(a, 0)[2]
Shl1One(a) == Shl1In(a, 1)[2]
DivSig(n, a, b) ==  \* MBits+3 quotient bits of a/b, a and b normalised; <<q, r>>
    FoldLeft(LAMBDA acc, k : IF LtU(acc[2], b) THEN <<Shl1(acc[1]), Shl1(acc[2])>>
                             ELSE <<Shl1One(acc[1]), Shl1(Sub(acc[2], b))>>,
             <<Zeros(8), a>>, IdxTab2[MBits(n) + 4])
FDiv(a, b) ==
    LET n == Len(a)  s == XorS(a, b) IN
    IF IsNaN(a) \/ IsNaN(b) THEN NaNs(n, <<a, b>>)
    ELSE IF (IsInf(a) /\ IsInf(b)) \/ (IsFZero(a) /\ IsFZero(b)) THEN NaNs(n, <<>>)
    ELSE IF IsInf(a) \/ IsFZero(b) THEN V(FInf(n, s))
    ELSE IF IsFZero(a) \/ IsInf(b) THEN V(FZero(n, s))
    ELSE LET x == NormSig(a)  y == NormSig(b)
             r == DivSig(n, x[1], y[1])
         IN V(RoundF(n, s, r[1], x[2] - y[2] - (MBits(n) + 3), ~IsZero(r[2])))

\* integer square root of sig * 2^(2k): digit by digit, two radicand bits at a time
SqrtStep(acc, rad, k) ==
    LET two == 2 * Bit(rad, 2 * k + 1) + Bit(rad, 2 * k)
        r == LET t == ShlN(acc[2], 2) IN [t EXCEPT ![1] = @ + two]
        t == LET u == ShlN(acc[1], 2) IN [u EXCEPT ![1] = @ + 1]
    IN IF LtU(r, t) THEN <<Shl1(acc[1]), r>> ELSE <<Shl1One(acc[1]), Sub(r, t)>>
FSqrt(a) ==
    LET n == Len(a)  m == MBits(n) IN
    IF IsNaN(a) THEN NaNs(n, <<a>>)
    ELSE IF IsFZero(a) THEN V(a)
    ELSE IF FSign(a) = 1 THEN NaNs(n, <<>>)
    ELSE IF IsInf(a) THEN V(a)
    ELSE LET x == NormSig(a)
             \* radicand = sig << sh with even resulting exponent, >= 2*(m+3) - 1 bits
             sh == IF (x[2] - (m + 5)) % 2 = 0 THEN m + 5 ELSE m + 6
             rad == ShlN(ZX(x[1], 16), sh)
             nd == (BitLen(rad) + 1) \div 2
             r == FoldLeft(LAMBDA acc, k : SqrtStep(acc, rad, k), <<Zeros(9), Zeros(9)>>, DescTab[nd])
         IN V(RoundF(n, 0, r[1], (x[2] - sh) \div 2, ~IsZero(r[2])))

\* order of two non-NaN numbers: -1, 0, 1
FCmp(a, b) ==
    IF IsFZero(a) /\ IsFZero(b) THEN 0
    ELSE IF FSign(a) # FSign(b) THEN (IF FSign(a) = 1 THEN -1 ELSE 1)
    ELSE IF FSign(a) = 0 THEN CmpU(a, b) ELSE CmpU(b, a)
FEq(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ FCmp(a, b) = 0
FLt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ FCmp(a, b) = -1
FGt(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ FCmp(a, b) = 1
FLe(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ FCmp(a, b) # 1
FGe(a, b) == ~IsNaN(a) /\ ~IsNaN(b) /\ FCmp(a, b) # -1

FMin(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaNs(Len(a), <<a, b>>)
              ELSE IF IsFZero(a) /\ IsFZero(b) THEN V(IF FSign(a) = 1 THEN a ELSE b)
              ELSE V(IF FCmp(a, b) = 1 THEN b ELSE a)
FMax(a, b) == IF IsNaN(a) \/ IsNaN(b) THEN NaNs(Len(a), <<a, b>>)
              ELSE IF IsFZero(a) /\ IsFZero(b) THEN V(IF FSign(a) = 1 THEN b ELSE a)
              ELSE V(IF FCmp(a, b) = -1 THEN b ELSE a)
FAbs(a) == SetSign(a, 0)
FCopysign(a, b) == SetSign(a, FSign(b))

\* mode: "ceil" "floor" "trunc" "nearest"
RoundInt(a, mode) ==
    LET n == Len(a) IN
    IF IsNaN(a) THEN NaNs(n, <<a>>)
    ELSE IF IsInf(a) \/ IsFZero(a) \/ FE(a) >= 0 THEN V(a)
    ELSE LET sig == FSig(a)
             k == -FE(a)
             big == k > 60
             ip == IF big THEN Zeros(8) ELSE ShrUN(sig, k)
             half == ~big /\ Bit(sig, k - 1) = 1
             rest == big \/ AnyLow(sig, k - 1)
             frac == half \/ rest
             up == CASE mode = "ceil" -> frac /\ FSign(a) = 0
                     [] mode = "floor" -> frac /\ FSign(a) = 1
                     [] mode = "trunc" -> FALSE
                     [] OTHER -> half /\ (rest \/ ip[1] % 2 = 1)
         IN V(RoundF(n, FSign(a), IF up THEN AddC(ip, Zeros(8), 1)[2] ELSE ip, 0, FALSE))

\* integer (byte word of any width) to float of n bytes
FromU(a, n) == RoundF(n, 0, a, 0, FALSE)
FromS(a, n) == IF SignBit(a) = 1 THEN RoundF(n, 1, Neg(a), 0, FALSE) ELSE FromU(a, n)

\* truncation of a non-NaN, non-infinite float: sign and magnitude, or overflow
TruncMag(a) ==   \* [ovf, mag (9 bytes)]
    IF IsInf(a) THEN [ovf |-> TRUE, mag |-> Zeros(9)]
    ELSE LET sig == FSig(a)  e == FE(a) IN
    IF BitLen(sig) + e > 66 THEN [ovf |-> TRUE, mag |-> Zeros(9)]
    ELSE [ovf |-> FALSE,
          mag |-> IF e >= 0 THEN ShlN(ZX(sig, 9), e)
                  ELSE IF -e > 63 THEN Zeros(9) ELSE ShrUN(ZX(sig, 9), -e)]
\* float -> n-byte integer: [k |-> "v", v], "nan", "low" (below range), "high"
TruncTo(a, n, signed) ==
    IF IsNaN(a) THEN [k |-> "nan"]
    ELSE LET t == TruncMag(a)
             s == FSign(a)
             lim == IF signed THEN ZX(MinS(n), 9) ELSE Append(Zeros(n), 1) \o Zeros(8 - n)
             \* signed: magnitude <= 2^(N-1) if negative, < 2^(N-1) if not
             bad == IF t.ovf THEN TRUE
                    ELSE IF signed THEN (IF s = 1 THEN CmpU(t.mag, lim) = 1 ELSE CmpU(t.mag, lim) # -1)
                    ELSE IF s = 1 THEN ~IsZero(t.mag) ELSE CmpU(t.mag, lim) # -1
         IN IF bad THEN [k |-> IF s = 1 THEN "low" ELSE "high"]
            ELSE V(IF s = 1 THEN Neg(ZX(t.mag, n)) ELSE ZX(t.mag, n))

\* conversions between the two formats
FCvt(a, n) ==
    IF IsNaN(a) THEN NaNs(n, <<a>>)
    ELSE IF IsInf(a) THEN V(FInf(n, FSign(a)))
    ELSE IF IsFZero(a) THEN V(FZero(n, FSign(a)))
    ELSE V(RoundF(n, FSign(a), FSig(a), FE(a), FALSE))
=============================================================================
