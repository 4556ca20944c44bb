-------------------------------- MODULE Exec --------------------------------
(***************************************************************************)
(* The abstract machine: store, instances, frames and the small step       *)
(* relation of every instruction, host functions of the conformance        *)
(* driver, instantiation, and the visible events each of them produces.    *)
(*                                                                         *)
(* Values are words (byte sequences); a funcref is <<>> (null) or          *)
(* <<address>>; an externref <<>> or 8 bytes; an exnref <<>> or            *)
(* <<tag address, payload>>.                                               *)
(* The machine S is a record:                                              *)
(*   funcs, tabs, mems, globs, tags : the store                            *)
(*   insts   : by slot: [ok, m, fa, ta, ma, ga, xa, ed, dd]                *)
(*   hs, hm, ht, cnt : host functions, their memory, table and counter     *)
(*   bk : the state before the latest instance, if it is still needed      *)
(*   cur, fr, d : running frame, suspended frames, number of wasm frames   *)
(*   be, rt  : event that reports the outcome, types of the results        *)
(*   out     : events that must be observed next                           *)
(*   mf, mc  : frame and cell limits (-1: none), hi: highest cell demand   *)
(*   gf      : for the next growths, 1: the host refuses                   *)
(***************************************************************************)
EXTENDS Valid, Simd, TLC

ModTab == TLCGet(2)      \* module id -> result of Check

\* numbers of the trap kinds visible through the embedding API
TrapMisc == 0
TrapDiv0 == 1
TrapOvf == 2
TrapMem == 3
TrapUnreachable == 4
TrapFrames == 5
TrapCells == 6
TrapCIBounds == 7
TrapCINull == 8
TrapCIType == 9
TrapConv == 10
TrapData == 13
TrapTab == 14
TrapElem == 15
TrapWaitUnshared == 16
TrapAtomicAlign == 17
TrapAlign == 18
TrapNoFuncTable == 19
TrapUncaught == 20
TrapThrowNull == 21
TrapNoMemory == 23

Zf == [k |-> "z", i |-> 0, b |-> 0, pc |-> 0, lo |-> <<>>, vs |-> <<>>]
NoInst == [ok |-> FALSE, m |-> 0, fa |-> <<>>, ta |-> <<>>, ma |-> <<>>, ga |-> <<>>, xa |-> <<>>,
           ed |-> <<>>, dd |-> <<>>]

(************************** outcomes and events ****************************)
Ev(e) == [e |-> e, ok |-> 1, r |-> "", t |-> {}, f |-> 0, v |-> <<>>, b |-> <<>>, p |-> <<>>,
          ch |-> {}]
Say(S, ev) == [S EXCEPT !.out = Append(@, ev)]
Stop(S) == [S EXCEPT !.cur = Zf, !.fr = <<>>, !.d = 0]
\* end the execution with a trap of one of the kinds ts
TrapOut(S, ts) == Say(Stop(S), [Ev(S.be) EXCEPT !.r = "trap", !.t = ts])
ErrOut(S, n) == Say(Stop(S), [Ev(S.be) EXCEPT !.r = "err", !.t = {n}])

\* how the driver shows references: the first instance slot that knows the
\* function and its lowest index there
FuncName(S, a) ==
    LET r == FoldLeft(LAMBDA acc, k :
               IF acc # <<>> \/ ~S.insts[k].ok THEN acc
               ELSE FoldLeft(LAMBDA b, j : IF b # <<>> THEN b
                                           ELSE IF S.insts[k].fa[j] = a THEN <<k - 1, j - 1>> ELSE b,
                             <<>>, NatSeq(Len(S.insts[k].fa))),
               <<>>, NatSeq(Len(S.insts)))
    IN IF r # <<>> THEN r ELSE <<1000, a - 1>>
Show(S, t, v) ==
    <<t, IF t = FuncRef THEN (IF v = <<>> THEN <<>> ELSE FuncName(S, v[1]))
         ELSE IF t = ExnRef THEN (IF v = <<>> THEN <<>> ELSE <<1>>)
         ELSE v>>
ShowAll(S, ts, vs) == FoldLeft(LAMBDA a, i : Append(a, Show(S, ts[i], vs[i])), <<>>, NatSeq(Len(ts)))

(******************************** memories *********************************)
\* byte counts and addresses are pairs <<n div 16, n mod 16>>
PairOf(w) == <<(w[1] \div 16) + w[2] * 16 + w[3] * 4096 + w[4] * 1048576, w[1] % 16>>
PairN(n) == <<n \div 16, n % 16>>
PAdd(a, b) == LET r == a[2] + b[2] IN <<a[1] + b[1] + r \div 16, r % 16>>
PLe(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])
PNat(a) == a[1] * 16 + a[2]
SizeOf(pg, ps) == IF ps = 16 THEN <<ToNat(pg) * 4096, 0>> ELSE PairOf(pg)
NewMem(lim) == [ps |-> lim.ps, pg |-> lim.min, sz |-> SizeOf(lim.min, lim.ps), max |-> lim.max,
                sh |-> lim.sh, ch |-> <<>>]
Chunk(m, q) == IF q \in DOMAIN m.ch THEN m.ch[q] ELSE Zeros(16)
InMem(m, a, n) == PLe(PAdd(a, n), m.sz)
\* n bytes from a (in bounds)
MRead(m, a, n) ==
    LET k == (a[2] + n + 15) \div 16 IN
    IF n = 0 THEN <<>>
    ELSE IF k = 1 THEN SubSeq(Chunk(m, a[1]), a[2] + 1, a[2] + n)
    ELSE SubSeq(FoldLeft(LAMBDA s, i : s \o Chunk(m, a[1] + i - 1), <<>>, NatSeq(k)),
                a[2] + 1, a[2] + n)
MWrite(m, a, bs) ==
    LET n == Len(bs)
        k == (a[2] + n + 15) \div 16
        full == SubSeq(Chunk(m, a[1]), 1, a[2]) \o bs
                \o SubSeq(Chunk(m, a[1] + k - 1), ((a[2] + n - 1) % 16) + 2, 16)
    IN IF n = 0 THEN m
       ELSE IF k = 1 THEN [m EXCEPT !.ch = (a[1] :> full) @@ @]
       ELSE [m EXCEPT !.ch = [q \in a[1]..(a[1] + k - 1) |->
                                SubSeq(full, (q - a[1]) * 16 + 1, (q - a[1]) * 16 + 16)] @@ @]
MFill(m, a, x, n) == IF n = 0 THEN m ELSE MWrite(m, a, [i \in 1..n |-> x])
\* growth by d pages (word): [ok, m]
MGrow(m, d) ==
    LET s == AddX(m.pg, d)
        new == SubSeq(s, 1, 4)
    IN IF s[5] # 0 \/ LtU(m.max, new) THEN [ok |-> FALSE, m |-> m]
       ELSE [ok |-> TRUE, m |-> [m EXCEPT !.pg = new, !.sz = SizeOf(new, m.ps)]]
EA(base, off) == PAdd(PairOf(base), PairOf(off))

(******************************** constants ********************************)
\* value of a constant expression in instance record I
ConstEval(S, I, code) ==
    LET r == FoldLeft(LAMBDA st, ins :
               LET op == ins[1]  n == Len(st) IN
               CASE op \in {65, 66, 67, 68, XD(12)} -> Append(st, ins[2])
                 [] op = 208 -> Append(st, <<>>)
                 [] op = 210 -> Append(st, <<I.fa[ins[2] + 1]>>)
                 [] op = 35 -> Append(st, S.globs[I.ga[ins[2] + 1]].v)
                 [] op \in {106, 107, 108} \cup {124, 125, 126} ->
                      LET k == IF op < 120 THEN op - 106 ELSE op - 124 IN
                      Append(SubSeq(st, 1, n - 2), IBin(k, st[n - 1], st[n]).v)
                 [] op = 11 -> st,
               <<>>, code)
    IN r[1]
ElemVals(S, I, x) ==
    Map(x.init, LAMBDA y : IF x.x THEN ConstEval(S, I, y) ELSE <<I.fa[y + 1]>>)

(***************************** calls and returns ***************************)
CellW(t) == CASE t \in {I32, F32} -> 1 [] t = V128 -> 4 [] t = ExnRef -> 12 [] OTHER -> 2
Cells(ts) == FoldLeft(LAMBDA a, t : a + CellW(t), 0, ts)
\* bounds of the operand cells in use after entering a function: every value on
\* the operand stacks takes at least one cell; at most what the functions in
\* progress may need
FrLo(S) == FoldLeft(LAMBDA a, f : a + Len(f.vs), 0, S.fr)
FrHi(S) == FoldLeft(LAMBDA a, f : IF f.k # "w" THEN a + 64
                                  ELSE LET B == ModTab[S.insts[f.i].m].f[f.b] IN
                                       a + Cells(B.lt) + 12 * B.mx + 8, 0, Append(S.fr, S.cur))

RECURSIVE Deliver(_, _), DoCall(_, _, _), CallHost(_, _, _), Again(_, _), Unwind(_, _)

\* hand results to the frame that waits for them
Deliver(S, rs) ==
    LET f == S.cur IN
    CASE f.k = "w" -> [S EXCEPT !.cur.vs = @ \o rs]
      [] f.k = "z" -> Say(S, [Ev(S.be) EXCEPT !.r = "ok", !.v = ShowAll(S, S.rt, rs)])
      [] f.k = "h" ->  \* back in a host function that called us
           LET P == [S EXCEPT !.cur = S.fr[Len(S.fr)], !.fr = SubSeq(@, 1, Len(@) - 1)] IN
           IF f.b = 0 THEN Deliver(P, rs)
           ELSE Again([S EXCEPT !.cur.b = f.b - 1], rs[1])

PopFrame(S) == [S EXCEPT !.cur = S.fr[Len(S.fr)], !.fr = SubSeq(@, 1, Len(@) - 1), !.d = @ - 1]

DoCall(S, addr, args) ==
    LET F == S.funcs[addr] IN
    IF F.h >= 0 THEN CallHost(S, F.h, args)
    ELSE IF S.mf >= 0 /\ S.d >= S.mf THEN TrapOut(S, {TrapFrames})
    ELSE LET B == ModTab[S.insts[F.i].m].f[F.f]
             T == [S EXCEPT !.fr = Append(@, S.cur), !.d = @ + 1,
                            !.cur = [k |-> "w", i |-> F.i, b |-> F.f, pc |-> 1,
                                     lo |-> args \o B.zl, vs |-> <<>>]]
         IN IF S.mc < 0 THEN T
            ELSE IF FrLo(T) > S.mc THEN TrapOut(S, {TrapCells})
            ELSE [T EXCEPT !.hi = LET h == FrHi(T) IN IF h > @ THEN h ELSE @]

\* the function a host function reaches through its function table; ty: wanted type
Deref(S, iw, ty) ==
    IF S.ht = 0 THEN [ok |-> FALSE, t |-> TrapNoFuncTable]
    ELSE LET e == S.tabs[S.ht].e IN
         IF ~IsSmall(iw) THEN [ok |-> FALSE, t |-> TrapCIBounds]
         ELSE LET i == ToNat(iw) IN
              IF i >= Len(e) THEN [ok |-> FALSE, t |-> TrapCIBounds]
              ELSE IF e[i + 1] = <<>> THEN [ok |-> FALSE, t |-> TrapCINull]
              ELSE IF S.funcs[e[i + 1][1]].t # ty THEN [ok |-> FALSE, t |-> TrapCIType]
              ELSE [ok |-> TRUE, a |-> e[i + 1][1]]

HostByte(cnt, i, j) == (7 * cnt + 31 * i + 13 * j + 5) % 256
HostVal(t, cnt, i) ==
    LET n == Len(ZeroOf(t))  w == Tab(n, LAMBDA j : HostByte(cnt, i, j - 1)) IN
    IF n > 0 THEN w
    ELSE IF t = ExternRef THEN LET x == Tab(8, LAMBDA j : HostByte(cnt, i, j - 1))
                               IN [x EXCEPT ![1] = IF @ % 2 = 0 THEN @ + 1 ELSE @]
    ELSE <<>>
HostVals(ts, cnt) == FoldLeft(LAMBDA a, i : Append(a, HostVal(ts[i], cnt, i - 1)), <<>>, NatSeq(Len(ts)))

\* continue the repeated callback of cbn with the running value x
Again(S, x) ==
    LET f == S.cur
        P == [S EXCEPT !.cur = S.fr[Len(S.fr)], !.fr = SubSeq(@, 1, Len(@) - 1)]
    IN IF f.b = 0 THEN Deliver(P, <<x>>)
       ELSE LET d == Deref(S, f.lo[1], <<<<I32>>, <<I32>>>>) IN
            IF d.ok THEN DoCall(S, d.a, <<x>>) ELSE TrapOut(S, {d.t})

CallHost(S, h, args) ==
    LET H == S.hs[h + 1]
        ev == [Ev("host") EXCEPT !.f = h, !.v = ShowAll(S, H.p, args)]
    IN
    CASE H.k \in {"log", "intr", "chk"} ->
           Deliver([Say(S, ev) EXCEPT !.cnt = (@ + 1) % 256], HostVals(H.r, S.cnt))
      [] H.k = "trap" -> TrapOut(Say(S, ev), {TrapMisc})
      [] H.k = "err" -> ErrOut(Say(S, ev), 5)
      [] H.k = "tcb" ->
           LET d == Deref(S, args[1], <<H.p, H.r>>) IN
           IF d.ok THEN DoCall(Say(S, ev), d.a, args) ELSE TrapOut(S, {d.t})
      [] H.k = "cb" ->
           \* without parameters: element 0
           LET np == Len(H.p) = 0
               d == Deref(S, IF np THEN <<0, 0, 0, 0>> ELSE args[1], <<IF np THEN <<>> ELSE Tail(H.p), H.r>>)
               T == Say(S, ev)
               U == [T EXCEPT !.fr = Append(@, S.cur), !.cur = [Zf EXCEPT !.k = "h"]]
           IN IF d.ok THEN DoCall(U, d.a, IF np THEN <<>> ELSE Tail(args)) ELSE TrapOut(T, {d.t})
      [] H.k = "cbn" ->
           LET T == Say(S, ev) IN
           Again([T EXCEPT !.fr = Append(@, S.cur),
                           !.cur = [Zf EXCEPT !.k = "h", !.b = ToNat(args[2]), !.lo = <<args[1]>>]],
                 args[3])
      [] H.k \in {"copyin", "copyout"} ->
           \* (pointer, length, alignment)
           LET al == ToNat(args[3])
               len == IF H.k = "copyout" /\ ~IsZero(SubSeq(args[2], 3, 4))
                      THEN <<0, 0, 1, 0>> ELSE args[2]
               n == PairOf(len)
               a == PairOf(args[1])
           IN IF PNat(<<a[1] % 64, a[2]>>) % al # 0 THEN TrapOut(S, {TrapAlign})
              ELSE IF S.hm = 0 THEN TrapOut(S, {TrapNoMemory})
              ELSE LET m == S.mems[S.hm] IN
                   IF ~InMem(m, a, n) THEN TrapOut(S, {TrapMem})
                   ELSE IF H.k = "copyin"
                        THEN Deliver(Say(S, [Ev("copyin") EXCEPT !.b =
                                IF PLe(n, <<4096, 0>>) THEN MRead(m, a, PNat(n)) ELSE <<>>]),
                                HostVals(H.r, 0))
                        ELSE Deliver(Say([S EXCEPT !.mems[S.hm] =
                                MWrite(m, a, [i \in 1..PNat(n) |-> i % 251])], Ev("copyout")),
                                HostVals(H.r, 0))

\* leave the running function with results rs
Return(S, rs) == Deliver(PopFrame(S), rs)

(******************************* branches **********************************)
LastN(s, n) == SubSeq(s, Len(s) - n + 1, Len(s))
DropN(s, n) == SubSeq(s, 1, Len(s) - n)
\* t: <<opening pc, arity, height>>; vs: the operand stack, values on top
Branch(S, B, t, vs) ==
    IF t[1] = 0 THEN Return(S, LastN(vs, t[2]))
    ELSE [S EXCEPT !.cur.pc = IF B.code[t[1]][1] = 3 THEN t[1] + 1 ELSE B.e[t[1]] + 1,
                   !.cur.vs = SubSeq(vs, 1, t[3]) \o LastN(vs, t[2])]

(****************************** exceptions *********************************)
\* the running frame's pc is one past the instruction that raises
Unwind(S, x) ==       \* x: <<tag address, payload>>
    LET f == S.cur IN
    IF f.k # "w" THEN TrapOut(S, {TrapUncaught})
    ELSE LET I == S.insts[f.i]
             B == ModTab[I.m].f[f.b]
             at == f.pc - 1
             hit == FoldRight(LAMBDA h, acc :     \* innermost region first
                      IF acc # <<>> \/ ~(h.lo < at /\ at < h.hi) THEN acc
                      ELSE FoldLeft(LAMBDA a, c :
                             IF a # <<>> THEN a
                             ELSE IF c[1] >= 2 THEN c
                             ELSE IF I.xa[c[2] + 1] = x[1] THEN c ELSE a, <<>>, h.c),
                      B.hs, <<>>)
         IN IF hit = <<>> THEN Unwind(PopFrame(S), x)
            ELSE LET vals == CASE hit[1] = 0 -> x[2] [] hit[1] = 1 -> Append(x[2], x)
                               [] hit[1] = 2 -> <<>> [] hit[1] = 3 -> <<x>>
                 IN Branch(S, B, <<hit[3], hit[4], hit[5]>>, SubSeq(f.vs, 1, hit[5]) \o vals)

(******************************* tables ************************************)
\* range [i, i+n) of a sequence of length len; i, n words
InTab(iw, nw, len) == IsSmall(iw) /\ IsSmall(nw) /\ ToNat(iw) + ToNat(nw) <= len
Splice(e, i, vs) == SubSeq(e, 1, i) \o vs \o SubSeq(e, i + Len(vs) + 1, Len(e))
RepSeq(x, n) == FoldLeft(LAMBDA a, i : Append(a, x), <<>>, NatSeq(n))

(**************************** memory accesses ******************************)
\* width in bytes and extension of the plain loads/stores
AccW == [op \in 40..62 |->
    CASE op \in {40, 42, 52, 53, 54, 56, 62} -> 4 [] op \in {41, 43, 55, 57} -> 8
      [] op \in {44, 45, 48, 49, 58, 60} -> 1 [] op \in {46, 47, 50, 51, 59, 61} -> 2]
LoadX(op, bs) ==
    LET n == IF op \in {40, 42, 44, 45, 46, 47} THEN 4 ELSE 8 IN
    IF op \in {44, 46, 48, 50, 52} THEN SX(bs, n) ELSE ZX(bs, n)

\* SIMD loads: bytes read by opcode n
VLoadW(n) == CASE n = 0 -> 16 [] n \in 1..6 -> 8 [] n \in {7, 84, 88} -> 1 [] n \in {8, 85, 89} -> 2
               [] n \in {9, 86, 90, 92} -> 4 [] n \in {10, 87, 91, 93} -> 8 [] n = 11 -> 16
VLoadX(n, bs) ==
    CASE n = 0 -> bs
      [] n \in 1..6 -> LET w == <<1, 1, 2, 2, 4, 4>>[n] IN
                       Cat(8 \div w, LAMBDA i : Ext(SubSeq(bs, (i - 1) * w + 1, i * w), n % 2 = 1))
      [] n \in 7..10 -> Cat(16 \div Len(bs), LAMBDA i : bs)
      [] n \in {92, 93} -> ZX(bs, 16)

\* read-modify-write by opcode group k = (n - 30) div 7: add sub and or xor xchg
Rmw(k, old, x) == CASE k = 0 -> Add(old, x) [] k = 1 -> Sub(old, x) [] k = 2 -> BAnd(old, x)
                    [] k = 3 -> BOr(old, x) [] k = 4 -> BXor(old, x) [] k = 5 -> x
AtW(n) == CASE n = 0 -> 4 [] n = 1 -> 4 [] n = 2 -> 8 [] n >= 16 -> Pow2(AtNat[((n - 16) % 7) + 1])
\* one atomic access on memory m with operands a (without the address) at ea:
\* [m, r (results)]
Atomic(n, m, ea, a) ==
    LET w == AtW(n)
        old == MRead(m, ea, w)
        tw == IF n >= 16 THEN Len(ZeroOf(AtTy[((n - 16) % 7) + 1])) ELSE 4
        cut(x) == SubSeq(x, 1, w)
    IN CASE n = 0 -> [m |-> m, r |-> <<Zeros(4)>>]                    \* no other thread
         [] n \in {1, 2} -> [m |-> m, r |-> <<IF a[1] = old THEN <<2, 0, 0, 0>> ELSE <<1, 0, 0, 0>>>>]
         [] n \in 16..22 -> [m |-> m, r |-> <<ZX(old, tw)>>]
         [] n \in 23..29 -> [m |-> MWrite(m, ea, cut(a[1])), r |-> <<>>]
         [] n \in 30..71 -> [m |-> MWrite(m, ea, Rmw((n - 30) \div 7, old, cut(a[1]))),
                             r |-> <<ZX(old, tw)>>]
         [] n \in 72..78 -> [m |-> IF ZX(old, tw) = a[1] THEN MWrite(m, ea, cut(a[2])) ELSE m,
                             r |-> <<ZX(old, tw)>>]

(***************************** instructions ********************************)
\* a NaN result stands for a set; programs normalise NaNs before using them
Pick(r) == IF r.k = "v" THEN r.v
           ELSE IF r.n = 4 THEN <<0, 0, 192, 127>> ELSE <<0, 0, 0, 0, 0, 0, 248, 127>>
NumTrap(t) == CASE t = "div0" -> TrapDiv0 [] t = "ovf" -> TrapOvf [] t = "conv" -> TrapConv
SimdArgs(n) == IF n = 82 THEN 3 ELSE IF n = 12 THEN 0
               ELSE IF n \in SimdUn \/ n \in SimdTest \/ n \in 15..22 \/ n \in {24, 25, 27, 29, 31, 33}
               THEN 1 ELSE 2

\* growth the limits allow may still fail when the host has no memory
GrowFails(P) == P.gf # <<>> /\ P.gf[1] = 1
Rest(s) == IF s = <<>> THEN s ELSE Tail(s)

\* P is S with the pc already advanced
Memory(P, I, ins) ==
    LET op == ins[1]  vs == P.cur.vs  n == Len(vs)
        put(k, xs) == [P EXCEPT !.cur.vs = DropN(@, k) \o xs]
    IN
    IF op \in 40..53 THEN
        LET m == P.mems[I.ma[ins[3] + 1]]  ea == EA(vs[n], ins[4])  w == AccW[op] IN
        IF InMem(m, ea, <<0, w>>) THEN put(1, <<LoadX(op, MRead(m, ea, w))>>)
        ELSE TrapOut(P, {TrapMem})
    ELSE IF op \in 54..62 THEN
        LET a == I.ma[ins[3] + 1]  m == P.mems[a]  ea == EA(vs[n - 1], ins[4])  w == AccW[op] IN
        IF InMem(m, ea, <<0, w>>)
        THEN [put(2, <<>>) EXCEPT !.mems[a] = MWrite(m, ea, SubSeq(vs[n], 1, w))]
        ELSE TrapOut(P, {TrapMem})
    ELSE IF op = 63 THEN put(0, <<P.mems[I.ma[ins[2] + 1]].pg>>)
    ELSE IF op = 64 THEN
        LET a == I.ma[ins[2] + 1]  g == MGrow(P.mems[a], vs[n]) IN
        IF ~g.ok THEN put(1, <<Ones(4)>>)
        ELSE IF GrowFails(P) THEN [put(1, <<Ones(4)>>) EXCEPT !.gf = Tail(@)]
        ELSE [put(1, <<P.mems[a].pg>>) EXCEPT !.mems[a] = g.m, !.gf = Rest(@)]
    ELSE IF op = XC(8) THEN       \* memory.init
        LET a == I.ma[ins[3] + 1]  m == P.mems[a]
            data == IF I.dd[ins[2] + 1] THEN <<>> ELSE ModTab[I.m].m.datas[ins[2] + 1].init
            d == vs[n - 2]  s == vs[n - 1]  c == vs[n]
            bad == (IF InTab(s, c, Len(data)) THEN {} ELSE {TrapData})
                   \cup (IF InMem(m, PairOf(d), PairOf(c)) THEN {} ELSE {TrapMem})
        IN IF bad # {} THEN TrapOut(P, bad)
           ELSE [put(3, <<>>) EXCEPT !.mems[a] =
                    MWrite(m, PairOf(d), SubSeq(data, ToNat(s) + 1, ToNat(s) + ToNat(c)))]
    ELSE IF op = XC(9) THEN [P EXCEPT !.insts[P.cur.i].dd[ins[2] + 1] = TRUE]
    ELSE IF op = XC(10) THEN      \* memory.copy dst src
        LET da == I.ma[ins[2] + 1]  dm == P.mems[da]  sm == P.mems[I.ma[ins[3] + 1]]
            d == PairOf(vs[n - 2])  s == PairOf(vs[n - 1])  c == PairOf(vs[n])
        IN IF ~InMem(dm, d, c) \/ ~InMem(sm, s, c) THEN TrapOut(P, {TrapMem})
           ELSE [put(3, <<>>) EXCEPT !.mems[da] = MWrite(dm, d, MRead(sm, s, PNat(c)))]
    ELSE IF op = XC(11) THEN      \* memory.fill
        LET a == I.ma[ins[2] + 1]  m == P.mems[a]  d == PairOf(vs[n - 2])  c == PairOf(vs[n]) IN
        IF ~InMem(m, d, c) THEN TrapOut(P, {TrapMem})
        ELSE [put(3, <<>>) EXCEPT !.mems[a] = MFill(m, d, vs[n - 1][1], PNat(c))]
    ELSE IF op >= 65024 THEN      \* atomics
        LET k == op - 65024
            na == CASE k = 3 -> 0 [] k = 0 -> 2 [] k \in {1, 2} -> 3 [] k \in 16..22 -> 1
                    [] k \in 23..71 -> 2 [] k >= 72 -> 3
        IN IF k = 3 THEN P
           ELSE LET a == I.ma[ins[3] + 1]  m == P.mems[a]
                    ea == EA(vs[n - na + 1], ins[4])  w == AtW(k)
                    bad == (IF k \in {1, 2} /\ ~m.sh THEN {TrapWaitUnshared} ELSE {})
                           \cup (IF InMem(m, ea, <<0, w>>) THEN {} ELSE {TrapMem})
                           \cup (IF ea[2] % w = 0 THEN {} ELSE {TrapAtomicAlign})
                    r == Atomic(k, m, ea, LastN(vs, na - 1))
                IN IF bad # {} THEN TrapOut(P, bad)
                   ELSE [put(na, r.r) EXCEPT !.mems[a] = r.m]
    ELSE                           \* vector accesses
        LET k == op - 64768  w == VLoadW(k)
            two == k = 11 \/ k \in 84..91
            a == I.ma[ins[3] + 1]  m == P.mems[a]
            ea == EA(IF two THEN vs[n - 1] ELSE vs[n], ins[4])
        IN IF ~InMem(m, ea, <<0, w>>) THEN TrapOut(P, {TrapMem})
           ELSE IF k = 11 THEN [put(2, <<>>) EXCEPT !.mems[a] = MWrite(m, ea, vs[n])]
           ELSE IF k \in 84..87 THEN put(2, <<SetLane(vs[n], w, ins[5], MRead(m, ea, w))>>)
           ELSE IF k \in 88..91
                THEN [put(2, <<>>) EXCEPT !.mems[a] = MWrite(m, ea, Lane(vs[n], w, ins[5] + 1))]
           ELSE put(1, <<VLoadX(k, MRead(m, ea, w))>>)

Tables(P, I, ins) ==
    LET op == ins[1]  vs == P.cur.vs  n == Len(vs)
        put(k, xs) == [P EXCEPT !.cur.vs = DropN(@, k) \o xs]
        one == <<1, 0, 0, 0>>
    IN
    CASE op = 37 -> LET e == P.tabs[I.ta[ins[2] + 1]].e IN
                    IF InTab(vs[n], one, Len(e)) THEN put(1, <<e[ToNat(vs[n]) + 1]>>)
                    ELSE TrapOut(P, {TrapTab})
      [] op = 38 -> LET a == I.ta[ins[2] + 1]  e == P.tabs[a].e IN
                    IF InTab(vs[n - 1], one, Len(e))
                    THEN [put(2, <<>>) EXCEPT !.tabs[a].e[ToNat(vs[n - 1]) + 1] = vs[n]]
                    ELSE TrapOut(P, {TrapTab})
      [] op = XC(12) ->   \* table.init
           LET a == I.ta[ins[3] + 1]  e == P.tabs[a].e
               seg == ModTab[I.m].m.elems[ins[2] + 1]
               vals == IF I.ed[ins[2] + 1] THEN <<>> ELSE ElemVals(P, I, seg)
               d == vs[n - 2]  s == vs[n - 1]  c == vs[n]
               bad == (IF InTab(s, c, Len(vals)) THEN {} ELSE {TrapElem})
                      \cup (IF InTab(d, c, Len(e)) THEN {} ELSE {TrapTab})
           IN IF bad # {} THEN TrapOut(P, bad)
              ELSE [put(3, <<>>) EXCEPT !.tabs[a].e =
                      Splice(e, ToNat(d), SubSeq(vals, ToNat(s) + 1, ToNat(s) + ToNat(c)))]
      [] op = XC(13) -> [P EXCEPT !.insts[P.cur.i].ed[ins[2] + 1] = TRUE]
      [] op = XC(14) ->   \* table.copy dst src
           LET da == I.ta[ins[2] + 1]  de == P.tabs[da].e  se == P.tabs[I.ta[ins[3] + 1]].e
               d == vs[n - 2]  s == vs[n - 1]  c == vs[n]
           IN IF ~InTab(d, c, Len(de)) \/ ~InTab(s, c, Len(se)) THEN TrapOut(P, {TrapTab})
              ELSE [put(3, <<>>) EXCEPT !.tabs[da].e =
                      Splice(de, ToNat(d), SubSeq(se, ToNat(s) + 1, ToNat(s) + ToNat(c)))]
      [] op = XC(15) ->   \* table.grow
           LET a == I.ta[ins[2] + 1]  T == P.tabs[a]  len == Len(T.e)
               s == AddX(FromNat(len, 4), vs[n])
           IN IF s[5] # 0 \/ LtU(T.max, SubSeq(s, 1, 4)) THEN put(2, <<Ones(4)>>)
              ELSE IF GrowFails(P) THEN [put(2, <<Ones(4)>>) EXCEPT !.gf = Tail(@)]
              ELSE [put(2, <<FromNat(len, 4)>>) EXCEPT
                       !.tabs[a].e = @ \o RepSeq(vs[n - 1], ToNat(vs[n])), !.gf = Rest(@)]
      [] op = XC(16) -> put(0, <<FromNat(Len(P.tabs[I.ta[ins[2] + 1]].e), 4)>>)
      [] op = XC(17) ->   \* table.fill
           LET a == I.ta[ins[2] + 1]  e == P.tabs[a].e IN
           IF ~InTab(vs[n - 2], vs[n], Len(e)) THEN TrapOut(P, {TrapTab})
           ELSE [put(3, <<>>) EXCEPT !.tabs[a].e =
                    Splice(e, ToNat(vs[n - 2]), RepSeq(vs[n - 1], ToNat(vs[n])))]

\* callee of call_indirect / return_call_indirect: index word, type
Indirect(S, e, iw, ty) ==
    IF ~InTab(iw, <<1, 0, 0, 0>>, Len(e)) THEN [ok |-> FALSE, t |-> TrapCIBounds]
    ELSE LET r == e[ToNat(iw) + 1] IN
         IF r = <<>> THEN [ok |-> FALSE, t |-> TrapCINull]
         ELSE IF S.funcs[r[1]].t # ty THEN [ok |-> FALSE, t |-> TrapCIType]
         ELSE [ok |-> TRUE, a |-> r[1]]

\* one instruction of the running wasm frame
Instr1(S) ==
    LET f == S.cur
        I == S.insts[f.i]
        B == ModTab[I.m].f[f.b]
        ins == B.code[f.pc]
        op == ins[1]
        vs == f.vs
        n == Len(vs)
        P == [S EXCEPT !.cur.pc = @ + 1]
        put(k, xs) == [S EXCEPT !.cur.pc = @ + 1, !.cur.vs = DropN(@, k) \o xs]
    IN
    IF op = 32 THEN put(0, <<f.lo[ins[2] + 1]>>)
    ELSE IF op \in {65, 66, 67, 68} THEN put(0, <<ins[2]>>)
    ELSE IF op = 33 THEN [put(1, <<>>) EXCEPT !.cur.lo[ins[2] + 1] = vs[n]]
    ELSE IF op = 34 THEN [P EXCEPT !.cur.lo[ins[2] + 1] = vs[n]]
    ELSE IF op \in 69..196 \/ op \in 64512..64519 THEN
         IF IsBinary(op)
         THEN LET r == NumBin(op, vs[n - 1], vs[n]) IN
              IF r.k = "trap" THEN TrapOut(P, {NumTrap(r.t)}) ELSE put(2, <<Pick(r)>>)
         ELSE LET r == NumUn(op, vs[n]) IN
              IF r.k = "trap" THEN TrapOut(P, {NumTrap(r.t)}) ELSE put(1, <<Pick(r)>>)
    ELSE IF op \in {1, 2, 3, 11, 31} THEN P
    ELSE IF op \in 40..64 THEN Memory(P, I, ins)
    ELSE IF op = 13 THEN
         IF IsZero(vs[n]) THEN put(1, <<>>)
         ELSE Branch(P, B, <<ins[2], ins[3], ins[4]>>, DropN(vs, 1))
    ELSE IF op = 12 THEN Branch(P, B, <<ins[2], ins[3], ins[4]>>, vs)
    ELSE IF op = 4 THEN
         IF IsZero(vs[n]) THEN [S EXCEPT !.cur.pc = ins[2] + 1, !.cur.vs = DropN(@, 1)]
         ELSE put(1, <<>>)
    ELSE IF op = 5 THEN [S EXCEPT !.cur.pc = ins[2] + 1]
    ELSE IF op = 15 THEN Return(P, LastN(vs, ins[2]))
    ELSE IF op = 35 THEN put(0, <<S.globs[I.ga[ins[2] + 1]].v>>)
    ELSE IF op = 36 THEN [put(1, <<>>) EXCEPT !.globs[I.ga[ins[2] + 1]].v = vs[n]]
    ELSE IF op = 26 THEN put(1, <<>>)
    ELSE IF op \in {27, 28} THEN put(3, <<IF IsZero(vs[n]) THEN vs[n - 1] ELSE vs[n - 2]>>)
    ELSE IF op = 14 THEN
         LET k == IF IsSmall(vs[n]) THEN ToNat(vs[n]) ELSE MaxNat
             t == IF k < Len(ins[2]) THEN ins[2][k + 1] ELSE ins[3]
         IN Branch(P, B, t, DropN(vs, 1))
    ELSE IF op \in {16, 18} THEN
         LET a == I.fa[ins[2] + 1]  np == Len(S.funcs[a].t[1])  args == LastN(vs, np) IN
         IF op = 16 THEN DoCall(put(np, <<>>), a, args) ELSE DoCall(PopFrame(P), a, args)
    ELSE IF op \in {17, 19} THEN
         LET ty == ModTab[I.m].m.types[ins[2] + 1]
             r == Indirect(S, S.tabs[I.ta[ins[3] + 1]].e, vs[n], ty)
             np == Len(ty[1])
             args == LastN(DropN(vs, 1), np)
         IN IF ~r.ok THEN TrapOut(P, {r.t})
            ELSE IF op = 17 THEN DoCall(put(np + 1, <<>>), r.a, args)
            ELSE DoCall(PopFrame(P), r.a, args)
    ELSE IF op = 0 THEN TrapOut(P, {TrapUnreachable})
    ELSE IF op = 8 THEN
         LET a == I.xa[ins[2] + 1]  np == Len(S.tags[a]) IN Unwind(P, <<a, LastN(vs, np)>>)
    ELSE IF op = 10 THEN
         IF vs[n] = <<>> THEN TrapOut(P, {TrapThrowNull}) ELSE Unwind(P, vs[n])
    ELSE IF op = 208 THEN put(0, <<<<>>>>)
    ELSE IF op = 209 THEN put(1, <<IF vs[n] = <<>> THEN <<1, 0, 0, 0>> ELSE Zeros(4)>>)
    ELSE IF op = 210 THEN put(0, <<<<I.fa[ins[2] + 1]>>>>)
    ELSE IF op \in {37, 38} \/ op \in 64524..64529 THEN Tables(P, I, ins)
    ELSE IF op \in 64520..64523 THEN Memory(P, I, ins)
    ELSE IF op >= 65024 THEN Memory(P, I, ins)
    ELSE LET k == op - 64768 IN
         IF k <= 11 \/ k \in 84..93 THEN Memory(P, I, ins)
         ELSE LET na == SimdArgs(k)
                  imm == IF Len(ins) > 1 THEN ins[2] ELSE 0
              IN put(na, <<SimdOp(k, imm, LastN(vs, na)).v>>)

\* up to c instructions, until something visible must happen
Burst == 150
Run(S) == FoldLeft(LAMBDA s, i : IF s.out # <<>> \/ s.cur.k # "w" THEN s ELSE Instr1(s),
                   S, NatSeq(Burst))

(**************************** instantiation ********************************)
\* what an import specification offers: a sequence of objects, each a sequence
\* of [m, n, k, a]
Offer(S, im) ==
    IF im.h = 1
    THEN FoldLeft(LAMBDA a, i : Append(a, <<[m |-> <<104, 111, 115, 116>>, n |-> S.hs[i].n, k |-> 0, a |-> i]>>),
                  <<>>, NatSeq(Len(S.hs)))
    ELSE LET I == S.insts[im.i + 1]  ex == ModTab[I.m].m.exports IN
         <<Map(ex, LAMBDA x : [m |-> im.n, n |-> x.n, k |-> x.k,
             a |-> CASE x.k = 0 -> I.fa[x.i + 1] [] x.k = 1 -> I.ta[x.i + 1] [] x.k = 2 -> I.ma[x.i + 1]
                     [] x.k = 3 -> I.ga[x.i + 1] [] x.k = 4 -> I.xa[x.i + 1]])>>
Offers(S, ims) == FoldLeft(LAMBDA a, im : a \o Offer(S, im), <<>>, ims)

LimOk(size, max, b, top) ==    \* words; b: wanted limits
    ~LtU(size, b.min) /\ (b.max = top \/ ~LtU(b.max, max))
AllOnes == <<255, 255, 255, 255>>
Compat(S, x, types, a) ==      \* x: import, a: address
    CASE x.k = 0 -> S.funcs[a].t = types[x.d + 1]
      [] x.k = 1 -> S.tabs[a].et = x.d.et /\
                    LimOk(FromNat(Len(S.tabs[a].e), 4), S.tabs[a].max, x.d.lim, AllOnes)
      [] x.k = 2 -> LET m == S.mems[a] IN
                    /\ m.ps = x.d.ps /\ m.sh = x.d.sh
                    /\ LimOk(m.pg, m.max, x.d, IF m.ps = 16 THEN <<0, 0, 1, 0>> ELSE AllOnes)
      [] x.k = 3 -> S.globs[a].t = x.d.t /\ S.globs[a].mut = x.d.mut
      [] x.k = 4 -> S.tags[a] = types[x.d[2] + 1][1]
\* address for import x or 0
Resolve(S, objs, x, types) ==
    FoldLeft(LAMBDA r, o : IF r # 0 THEN r
        ELSE FoldLeft(LAMBDA q, e : IF q # 0 THEN q
                 ELSE IF e.m = x.m /\ e.n = x.n /\ e.k = x.k
                      THEN (IF Compat(S, x, types, e.a) THEN e.a ELSE 0) ELSE 0, 0, o),
        0, objs)

ExportAddr(S, I, name, k) ==
    FoldLeft(LAMBDA r, x : IF x.n = name /\ x.k = k
                           THEN (IF k = 1 THEN I.ta[x.i + 1] ELSE I.ma[x.i + 1]) ELSE r,
             0, ModTab[I.m].m.exports)
MemoryName == <<109, 101, 109, 111, 114, 121>>
FuncTableName == <<95, 95, 105, 110, 100, 105, 114, 101, 99, 116, 95, 102, 117, 110, 99, 116, 105,
                   111, 110, 95, 116, 97, 98, 108, 101>>

\* allocate instance `slot` of module id mid, imports resolved to ra
Alloc(S, slot, mid, ra) ==
    LET M == ModTab[mid]  m == M.m
        imp(k) == FoldLeft(LAMBDA a, i : IF m.imports[i].k = k THEN Append(a, ra[i]) ELSE a,
                           <<>>, NatSeq(Len(m.imports)))
        seq(base, n) == [j \in 1..n |-> base + j]
        nf == Len(S.funcs)  nt == Len(S.tabs)  nm == Len(S.mems)  ng == Len(S.globs)  nx == Len(S.tags)
        I == [ok |-> TRUE, m |-> mid,
              fa |-> imp(0) \o seq(nf, Len(m.funcs)), ta |-> imp(1) \o seq(nt, Len(m.tables)),
              ma |-> imp(2) \o seq(nm, Len(m.mems)), ga |-> imp(3) \o seq(ng, Len(m.globals)),
              xa |-> imp(4) \o seq(nx, Len(m.tags)),
              ed |-> Map(m.elems, LAMBDA x : FALSE), dd |-> Map(m.datas, LAMBDA x : FALSE)]
        T == [S EXCEPT
                !.funcs = @ \o FoldLeft(LAMBDA a, i : Append(a, [h |-> -1, i |-> slot, f |-> i,
                                           t |-> m.types[m.funcs[i] + 1]]), <<>>, NatSeq(Len(m.funcs))),
                !.tabs = @ \o Map(m.tables, LAMBDA x : [et |-> x.et, max |-> x.lim.max,
                                           e |-> RepSeq(<<>>, ToNat(x.lim.min))]),
                !.mems = @ \o Map(m.mems, LAMBDA x : NewMem(x)),
                !.globs = @ \o Map(m.globals, LAMBDA x : [t |-> x.t, mut |-> x.mut, v |-> ZeroOf(x.t)]),
                !.tags = @ \o Map(m.tags, LAMBDA x : m.types[x[2] + 1][1]),
                !.insts[slot] = I]
        ft == ExportAddr(T, I, FuncTableName, 1)
    IN [T EXCEPT !.hm = ExportAddr(T, I, MemoryName, 2),
                 !.ht = IF ft = 0 THEN 0 ELSE IF T.tabs[ft].et = FuncRef THEN ft ELSE 0]

\* globals, then element segments, then data segments; stops at the first trap
InitGlobals(S, slot) ==
    LET I == S.insts[slot]  m == ModTab[I.m].m  base == Len(I.ga) - Len(m.globals) IN
    FoldLeft(LAMBDA s, i : [s EXCEPT !.globs[I.ga[base + i]].v = ConstEval(s, I, m.globals[i].init)],
             S, NatSeq(Len(m.globals)))
InitElem(S, slot, i) ==
    LET I == S.insts[slot]  x == ModTab[I.m].m.elems[i] IN
    IF x.mode = 1 THEN S
    ELSE IF x.mode = 2 THEN [S EXCEPT !.insts[slot].ed[i] = TRUE]
    ELSE LET a == I.ta[x.table + 1]  vals == ElemVals(S, I, x)  off == ConstEval(S, I, x.off) IN
         IF ~InTab(off, FromNat(Len(vals), 4), Len(S.tabs[a].e)) THEN TrapOut(S, {TrapTab})
         ELSE [S EXCEPT !.tabs[a].e = Splice(@, ToNat(off), vals), !.insts[slot].ed[i] = TRUE]
InitData(S, slot, i) ==
    LET I == S.insts[slot]  x == ModTab[I.m].m.datas[i] IN
    IF ~x.active THEN S
    ELSE LET a == I.ma[x.mem + 1]  off == PairOf(ConstEval(S, I, x.off)) IN
         IF ~InMem(S.mems[a], off, PairN(Len(x.init))) THEN TrapOut(S, {TrapMem})
         ELSE [S EXCEPT !.mems[a] = MWrite(@, off, x.init), !.insts[slot].dd[i] = TRUE]
\* S: nothing said yet beyond the link event
Initialise(S, slot) ==
    LET I == S.insts[slot]  m == ModTab[I.m].m
        n0 == Len(S.out)
        g == InitGlobals(S, slot)
        e == FoldLeft(LAMBDA s, i : IF Len(s.out) > n0 THEN s ELSE InitElem(s, slot, i), g,
                      NatSeq(Len(m.elems)))
        d == FoldLeft(LAMBDA s, i : IF Len(s.out) > n0 THEN s ELSE InitData(s, slot, i), e,
                      NatSeq(Len(m.datas)))
    IN IF Len(d.out) > n0 THEN d
       ELSE IF m.start = -1 THEN Say(d, [Ev("init") EXCEPT !.r = "ok"])
       ELSE DoCall(d, I.fa[m.start + 1], <<>>)

\* create an instance in slot (1-based) from module id mid with import list ims
Instantiate(S, slot, mid, ims) ==
    LET m == ModTab[mid].m
        objs == Offers(S, ims)
        ra == Map(m.imports, LAMBDA x : Resolve(S, objs, x, m.types))
    IN IF \E i \in DOMAIN ra : ra[i] = 0 THEN Say(S, [Ev("link") EXCEPT !.ok = 0])
       ELSE Initialise([Say(Alloc(S, slot, mid, ra), Ev("link")) EXCEPT !.be = "init", !.rt = <<>>], slot)

\* call function address a
Invoke(S, a, args) == DoCall([S EXCEPT !.be = "ret", !.rt = S.funcs[a].t[2], !.hi = 0], a, args)

Machine0(hosts, slots, mf, mc, gf) ==
    [funcs |-> FoldLeft(LAMBDA a, i : Append(a, [h |-> i - 1, i |-> 0, f |-> 0,
                                                t |-> <<hosts[i].p, hosts[i].r>>]),
                        <<>>, NatSeq(Len(hosts))),
     tabs |-> <<>>, mems |-> <<>>, globs |-> <<>>, tags |-> <<>>,
     insts |-> RepSeq(NoInst, slots), hs |-> hosts, hm |-> 0, ht |-> 0, bk |-> <<>>, cnt |-> 0,
     cur |-> Zf, fr |-> <<>>, d |-> 0, be |-> "", rt |-> <<>>, out |-> <<>>,
     mf |-> mf, mc |-> mc, hi |-> 0, gf |-> gf]

(******************************* invariants ********************************)
WidthOk(t, v) == IF ZeroOf(t) # <<>> THEN Len(v) = Len(ZeroOf(t))
                 ELSE IF t = FuncRef THEN Len(v) <= 1 ELSE IF t = ExnRef THEN Len(v) \in {0, 2}
                 ELSE Len(v) \in {0, 8}
FrameOk(S, f) ==
    f.k = "w" =>
      LET B == ModTab[S.insts[f.i].m].f[f.b] IN
      /\ f.pc \in 1..(Len(B.code) + 1)
      /\ Len(f.lo) = Len(B.lt)
      /\ \A i \in DOMAIN f.lo : WidthOk(B.lt[i], f.lo[i])
WellFormed(S) ==
    /\ FrameOk(S, S.cur)
    /\ \A i \in DOMAIN S.fr : FrameOk(S, S.fr[i])
    /\ \A i \in DOMAIN S.globs : WidthOk(S.globs[i].t, S.globs[i].v)
    /\ \A i \in DOMAIN S.mems : LET m == S.mems[i] IN
         /\ m.sz = SizeOf(m.pg, m.ps) /\ ~LtU(m.max, m.pg)
         /\ \A q \in DOMAIN m.ch : PLe(<<q, 0>>, m.sz)
    /\ \A i \in DOMAIN S.tabs : LET t == S.tabs[i] IN
         /\ ~LtU(t.max, FromNat(Len(t.e), 4))
         /\ \A j \in DOMAIN t.e : WidthOk(t.et, t.e[j])
=============================================================================
