----------------------------- MODULE SharedSum ------------------------------
(* Programs whose outcome does not depend on the interleaving as long as     *)
(* every operation is atomic and no wake-up is lost: what they must leave    *)
(* behind.  h: repeated read-modify-writes; p: locks, rings and semaphores   *)
(* built from wait and notify.                                               *)
EXTENDS Shared, TLC, TLCExt, Json, IOUtils, Bags
Traces == ndJsonDeserialize(IOEnv.TRACE)
ASSUME TLCSet(1, 0)
VARIABLES t, l, ph
vars == <<t, l, ph>>
T == Traces[t]

Total(n) == (n * (n + 1)) \div 2      \* thread i = 1..n counts in steps of i
BagOf(s) == FoldLeft(LAMBDA b, x : b (+) SetToBag({x}), EmptyBag, s)
AllBits(n, cnt) == IF cnt % 2 = 0 THEN 0 ELSE Pow2(n) - 1
Sum(o) ==
    CASE o.k = "add" -> FromNat(o.cnt * Total(o.n), o.w)
      [] o.k = "sub" -> FromInt(-(o.cnt * Total(o.n)), o.w)
      [] o.k = "cas" -> FromNat(o.cnt * o.n, o.w)
      [] o.k = "xor" -> FromNat(AllBits(o.n, o.cnt), o.w)
      [] o.k = "and" -> Zeros(o.w)
OpFits(o) ==
    /\ \A i \in DOMAIN o.over : o.over[i] = 0      \* neighbours are untouched
    /\ IF o.k = "xchg"
       THEN BagOf(<<ZX(o.c, 8)>> \o o.tok) = BagOf([i \in 1..(o.n + 1) |-> FromNat(i - 1, 8)])
       ELSE o.c = Sum(o)
ProtFits(q) == /\ q.lk = 0 /\ q.ctr = q.n * q.cnt
               /\ q.ring = q.n * q.per
               /\ q.sem = 0 /\ q.sctr = (q.n - 1) * q.cnt
\* own memory that only one thread uses while the memory grows
OwnFits(w) == w.lost = 0 /\ w.own = w.want
Init == t \in 1..Len(Traces) /\ l = 1 /\ ph = "run"
Step == /\ ph = "run"
        /\ l' = l + 1
        /\ IF l <= Len(T.h.o) THEN ph' = IF OpFits(T.h.o[l]) THEN "run" ELSE "bad"
           ELSE ph' = IF IsZero(T.h.bad) /\ (\A i \in DOMAIN T.p : ProtFits(T.p[i]))
                                /\ (\A i \in DOMAIN T.w : OwnFits(T.w[i])) THEN "done" ELSE "bad"
        /\ UNCHANGED t
Spec == Init /\ [][Step]_vars
Conforms == ph # "bad"
Sound == TRUE
Count == IF ph = "done" THEN TLCSet(1, TLCGet(1) + 1) ELSE TRUE
AllDone == PrintT(<<"finished", TLCGet(1)>>)
=============================================================================
