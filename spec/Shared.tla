------------------------------- MODULE Shared -------------------------------
(* A shared memory and the threads that use it.  The state is                *)
(*   c   the bytes of the cell the threads work on                           *)
(*   g   the size of the memory in pages                                     *)
(*   st  of each thread: "r" running, "w" blocked in a wait, "k" woken       *)
(*   at  the address each thread waits at                                    *)
(* Operations are records: n (number of the atomic instruction, or Size,     *)
(* Grow, Load, Store), a (offset in the cell), v (operand bytes) and x (a    *)
(* count), and their outcome r (bytes).                                      *)
EXTENDS Word, FiniteSets

Notify == 0
Wait4 == 1
Wait8 == 2
Fence == 3
Size == 100
Grow == 101

Waits == {Wait4, Wait8}
Group(n) == (n - 16) \div 7        \* 0 load 1 store 2 add .. 7 xchg 8 cmpxchg
Width(n) == CASE n \in {Notify, Wait4} -> 4 [] n = Wait8 -> 8
              [] n \in 16..78 -> <<4, 8, 1, 2, 1, 2, 4>>[((n - 16) % 7) + 1]
TyWidth(n) == <<4, 8, 4, 4, 8, 8, 8>>[((n - 16) % 7) + 1]

Rd(c, a, w) == SubSeq(c, a + 1, a + w)
Wr(c, a, bs) == SubSeq(c, 1, a) \o bs \o SubSeq(c, a + Len(bs) + 1, Len(c))
Cut(x, w) == SubSeq(x, 1, w)

Rmw(k, old, x) == CASE k = 2 -> Add(old, x) [] k = 3 -> Sub(old, x) [] k = 4 -> BAnd(old, x)
                    [] k = 5 -> BOr(old, x) [] k = 6 -> BXor(old, x) [] k = 7 -> x

\* the cell after, and the result of, an access
After(c, o) ==
    LET w == Width(o.n)  old == Rd(c, o.a, w)  k == Group(o.n) IN
    CASE k = 0 -> c
      [] k = 1 -> Wr(c, o.a, Cut(o.v[1], w))
      [] k \in 2..7 -> Wr(c, o.a, Rmw(k, old, Cut(o.v[1], w)))
      [] k = 8 -> IF ZX(old, TyWidth(o.n)) = o.v[1] THEN Wr(c, o.a, Cut(o.v[2], w)) ELSE c
Result(c, o) == IF Group(o.n) = 1 THEN <<>> ELSE ZX(Rd(c, o.a, Width(o.n)), TyWidth(o.n))

Equal(c, o) == Rd(c, o.a, Width(o.n)) = o.v[1]
Failed == <<255, 255, 255, 255>>
Waiting(st, at, a) == {i \in DOMAIN st : st[i] = "w" /\ at[i] = a}
Min2(a, b) == IF a < b THEN a ELSE b
=============================================================================
