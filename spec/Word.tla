-------------------------------- MODULE Word --------------------------------
(***************************************************************************)
(* Fixed width machine words and arbitrary width naturals, represented as  *)
(* little-endian sequences of bytes (0..255).  TLC integers are 32 bit, so *)
(* every wide quantity of the specification (i32, i64, v128, significands) *)
(* is such a byte sequence.  The width of a word is the length of its      *)
(* sequence.                                                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, Bitwise, TLC

P2 == <<1,2,4,8,16,32,64,128,256,512,1024,2048,4096,8192,16384,32768,65536,
        131072,262144,524288,1048576,2097152,4194304,8388608,16777216,
        33554432,67108864,134217728,268435456,536870912,1073741824>>
Pow2(n) == P2[n + 1]

RECURSIVE Rep(_, _)
Rep(x, n) == IF n = 0 THEN <<>> ELSE Append(Rep(x, n - 1), x)

MaxLen == 40
ZeroTab == [i \in 1..MaxLen |-> Rep(0, i)]
FFTab == [i \in 1..MaxLen |-> Rep(255, i)]
IdxTab == [i \in 1..MaxLen |-> [j \in 1..i |-> j]]
IdxTab2 == [i \in 1..64 |-> [j \in 1..i |-> j]]
Zeros(n) == IF n = 0 THEN <<>> ELSE ZeroTab[n]
Ones(n) == IF n = 0 THEN <<>> ELSE FFTab[n]
Idx(n) == IF n = 0 THEN <<>> ELSE IdxTab[n]

\* build a sequence of length n from an operator
Tab(n, f(_)) == FoldLeft(LAMBDA acc, i : Append(acc, f(i)), <<>>, Idx(n))

\* zero extension / truncation to n bytes
ZX(a, n) == IF Len(a) = n THEN a
            ELSE IF Len(a) > n THEN SubSeq(a, 1, n)
            ELSE a \o Zeros(n - Len(a))

SignBit(a) == a[Len(a)] \div 128
SX(a, n) == IF Len(a) >= n THEN SubSeq(a, 1, n)
            ELSE a \o (IF SignBit(a) = 1 THEN Ones(n - Len(a)) ELSE Zeros(n - Len(a)))

IsZero(a) == \A i \in DOMAIN a : a[i] = 0

\* a + b + c (c a carry), result of the width of a
AddC(a, b, c) ==
    FoldLeft(LAMBDA acc, i : LET s == a[i] + b[i] + acc[1]
                             IN <<s \div 256, Append(acc[2], s % 256)>>,
             <<c, <<>>>>, Idx(Len(a)))
Add(a, b) == AddC(a, b, 0)[2]
\* a + b without loss: one byte more
AddX(a, b) == LET r == AddC(a, b, 0) IN Append(r[2], r[1])
BitNot(a) == Tab(Len(a), LAMBDA i : 255 - a[i])
Sub(a, b) == AddC(a, BitNot(b), 1)[2]
Neg(a) == AddC(BitNot(a), Zeros(Len(a)), 1)[2]
BAnd(a, b) == Tab(Len(a), LAMBDA i : a[i] & b[i])
BOr(a, b) == Tab(Len(a), LAMBDA i : a[i] | b[i])
BXor(a, b) == Tab(Len(a), LAMBDA i : a[i] ^^ b[i])

\* unsigned comparison: -1, 0, 1
CmpU(a, b) == FoldLeft(LAMBDA acc, i : IF a[i] = b[i] THEN acc
                                       ELSE IF a[i] < b[i] THEN -1 ELSE 1,
                       0, Idx(Len(a)))
LtU(a, b) == CmpU(a, b) = -1
FlipTop(a) == [a EXCEPT ![Len(a)] = (@ + 128) % 256]
LtS(a, b) == LtU(FlipTop(a), FlipTop(b))

\* small naturals <-> words
RECURSIVE FromNatR(_, _)
FromNatR(v, n) == IF n = 0 THEN <<>> ELSE <<v % 256>> \o FromNatR(v \div 256, n - 1)
FromNat(v, n) == FromNatR(v, n)
FromInt(v, n) == IF v >= 0 THEN FromNatR(v, n) ELSE Neg(FromNatR(-v, n))
\* value of a word known to be < 2^31
ToNat(a) == FoldRight(LAMBDA x, acc : acc * 256 + x, a, 0)
\* does the word denote a natural < 2^24 (so that ToNat is safe and sums fit)
IsSmall(a) == \A i \in DOMAIN a : i > 3 => a[i] = 0
\* signed value of a 1, 2 or 3 byte word
ToSInt(a) == LET u == ToNat(a) IN
             IF SignBit(a) = 1 THEN u - Pow2(8 * Len(a)) ELSE u
\* u32 mapped to the TLC integers preserving order: u - 2^31
Biased(a) == (a[4] - 128) * 16777216 + a[3] * 65536 + a[2] * 256 + a[1]

\* shift by k bits, 0 <= k < 8 * Len(a)
ShlN(a, k) ==
    LET q == k \div 8  r == k % 8
        g(i) == IF i < 1 THEN 0 ELSE a[i]
    IN IF r = 0 THEN Tab(Len(a), LAMBDA i : g(i - q))
       ELSE Tab(Len(a), LAMBDA i : ((g(i - q) * Pow2(r)) % 256) + (g(i - q - 1) \div Pow2(8 - r)))
ShrFill(a, k, fill) ==
    LET q == k \div 8  r == k % 8  n == Len(a)
        g(i) == IF i > n THEN fill ELSE a[i]
    IN IF r = 0 THEN Tab(n, LAMBDA i : g(i + q))
       ELSE Tab(n, LAMBDA i : (g(i + q) \div Pow2(r)) + ((g(i + q + 1) * Pow2(8 - r)) % 256))
ShrUN(a, k) == ShrFill(a, k, 0)
ShrSN(a, k) == ShrFill(a, k, IF SignBit(a) = 1 THEN 255 ELSE 0)

\* full product: coefficients then carries
MulCoef(a, b, k) ==   \* k = 1 .. Len(a)+Len(b)-1
    LET lo == IF k > Len(b) THEN k + 1 - Len(b) ELSE 1
        hi == IF k > Len(a) THEN Len(a) ELSE k
    IN FoldLeft(LAMBDA acc, j : acc + a[lo + j - 1] * b[k + 2 - lo - j], 0, Idx(hi - lo + 1))
MulW(a, b, n) ==
    FoldLeft(LAMBDA acc, k :
               LET s == acc[1] + (IF k < Len(a) + Len(b) THEN MulCoef(a, b, k) ELSE 0)
               IN <<s \div 256, Append(acc[2], s % 256)>>,
             <<0, <<>>>>, Idx(n))[2]
Mul(a, b) == MulW(a, b, Len(a))
MulFull(a, b) == MulW(a, b, Len(a) + Len(b))

\* number of significant bits of a natural
ByteBits == <<0>> \o [i \in 1..255 |-> IF i < 2 THEN 1 ELSE IF i < 4 THEN 2 ELSE IF i < 8 THEN 3
              ELSE IF i < 16 THEN 4 ELSE IF i < 32 THEN 5 ELSE IF i < 64 THEN 6
              ELSE IF i < 128 THEN 7 ELSE 8]
BitLen(a) == FoldLeft(LAMBDA acc, i : IF a[i] # 0 THEN (i - 1) * 8 + ByteBits[a[i] + 1] ELSE acc,
                      0, Idx(Len(a)))
Bit(a, k) == (a[(k \div 8) + 1] \div Pow2(k % 8)) % 2

\* unsigned long division: <<quotient, remainder>>, same width, b # 0
Shl1In(a, bit) == FoldLeft(LAMBDA acc, i : LET s == 2 * a[i] + acc[1]
                                           IN <<s \div 256, Append(acc[2], s % 256)>>,
                           <<bit, <<>>>>, Idx(Len(a)))
DescTab == [i \in 1..160 |-> [j \in 1..i |-> i - j]]
DivStep(acc, a, bx, k) ==
    LET t == Shl1In(acc[2], Bit(a, k))
        r1 == t[2]
        ge == ~LtU(r1, bx)
    IN IF ge THEN <<Shl1In(acc[1], 1)[2], Sub(r1, bx)>>
       ELSE <<Shl1In(acc[1], 0)[2], r1>>
DivModU(a, b) ==
    LET n == BitLen(a)
        bx == Append(b, 0)
        r == FoldLeft(LAMBDA acc, k : DivStep(acc, a, bx, k),
                      <<Zeros(Len(a)), Zeros(Len(bx))>>, IF n = 0 THEN <<>> ELSE DescTab[n])
    IN <<r[1], SubSeq(r[2], 1, Len(b))>>

PopByte == [i \in 1..256 |-> LET x == i - 1 IN
              (x % 2) + ((x \div 2) % 2) + ((x \div 4) % 2) + ((x \div 8) % 2) +
              ((x \div 16) % 2) + ((x \div 32) % 2) + ((x \div 64) % 2) + ((x \div 128) % 2)]
PopCnt(a) == FoldLeft(LAMBDA acc, x : acc + PopByte[x + 1], 0, a)
Clz(a) == 8 * Len(a) - BitLen(a)
CtzByte == [i \in 1..255 |-> IF i % 2 = 1 THEN 0 ELSE IF i % 4 = 2 THEN 1 ELSE IF i % 8 = 4 THEN 2
             ELSE IF i % 16 = 8 THEN 3 ELSE IF i % 32 = 16 THEN 4 ELSE IF i % 64 = 32 THEN 5
             ELSE IF i % 128 = 64 THEN 6 ELSE 7]
Ctz(a) == FoldRight(LAMBDA x, acc : IF x = 0 THEN acc + 8 ELSE CtzByte[x], a, 0)

MinS(n) == Append(Zeros(n - 1), 128)
MaxS(n) == Append(Ones(n - 1), 127)
=============================================================================
