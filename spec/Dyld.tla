-------------------------------- MODULE Dyld --------------------------------
(* Run-time linking of a main module and shared libraries: which files are  *)
(* loaded, what every imported symbol means, where objects may be placed,   *)
(* in which order they are initialised, and what load_object and            *)
(* resolve_symbol do.  Addresses are not prescribed: a place is whatever    *)
(* was first seen, and every place must fit with all others.                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Num(v) == [k |-> "i", o |-> 0, x |-> v]
\* data cells start scr bytes into an object
Mem(o, off) == [k |-> "m", o |-> o, x |-> off]
Fn(o, f) == [k |-> "f", o |-> o, x |-> f]
Handle(o) == [k |-> "h", o |-> o, x |-> 0]
None == Num(0)

NoRet == [k |-> "-", o |-> 0, x |-> 0]
Frame(o, f, p) == [k |-> "fn", o |-> o, f |-> f, pc |-> 1, p |-> p, w |-> 0, r |-> 0,
                   s |-> {}, d |-> {}, h |-> 0]
\* initialisation of the objects s, remaining ones d; pc: 1 relocations, 2 constructors;
\* h: the object load_object was asked for, 0 for the program itself
InitFrame(s, h) == [k |-> "init", o |-> 0, f |-> 0, pc |-> 1, p |-> 0, w |-> 0, r |-> 0,
                    s |-> s, d |-> s, h |-> h]

M(st, o) == st.cfg.mods[st.objs[o].m]
Pow(n) == 2 ^ n

--------------------------------------------------------------------------
(* Finding and loading                                                     *)
BadName(st, n) == \E k \in 1..Len(st.cfg.badnames) : st.cfg.badnames[k] = n

\* the module a name leads to: the first directory that has it; 0 none
File(st, n) ==
  LET hit == {<<d, k>> \in UNION {{d} \X (1..Len(st.cfg.dirs[d])) : d \in 1..Len(st.cfg.dirs)} :
                st.cfg.dirs[d][k].n = n}
      first == CHOOSE h \in hit : \A g \in hit : h[1] <= g[1]
  IN IF BadName(st, n) \/ hit = {} THEN 0 ELSE st.cfg.dirs[first[1]][first[2]].m

Loadable(st, m) == m # 0 /\ st.cfg.mods[m].err = 0 /\ (st.cfg.mods[m].dl = 1 => st.cfg.dl = 1)

\* libraries can be found by name, the program cannot
ByName(objs, n) == {o \in 2..Len(objs) : objs[o].n = n /\ objs[o].on}

NewObj(n, m) == [n |-> n, m |-> m, on |-> TRUE, mb |-> -1, tb |-> -1]

\* load what is needed, from object i on, need j on; <<ok, objs>>
RECURSIVE Needed(_, _, _, _)
Needed(st, objs, i, j) ==
  IF i > Len(objs) THEN <<TRUE, objs>>
  ELSE LET ns == st.cfg.mods[objs[i].m].needs IN
       IF j > Len(ns) THEN Needed(st, objs, i + 1, 1)
       ELSE IF ByName(objs, ns[j]) # {} THEN Needed(st, objs, i, j + 1)
       ELSE LET m == File(st, ns[j]) IN
            IF ~Loadable(st, m) THEN <<FALSE, objs>>
            ELSE Needed(st, Append(objs, NewObj(ns[j], m)), i, j + 1)

--------------------------------------------------------------------------
(* Symbols                                                                 *)
FuncIn(st, o, n) == {k \in 1..Len(M(st, o).fx) : M(st, o).fx[k].n = n}
DataIn(st, o, n) == {k \in 1..Len(M(st, o).gx) : M(st, o).gx[k].n = n}
TheFunc(st, o, n) == Fn(o, M(st, o).fx[CHOOSE k \in FuncIn(st, o, n) : TRUE].f)
TheData(st, o, n) == Mem(o, M(st, o).gx[CHOOSE k \in DataIn(st, o, n) : TRUE].off)
Weak(st, o, n) == \E k \in 1..Len(M(st, o).weak) : M(st, o).weak[k] = n

First(S) == CHOOSE x \in S : \A y \in S : x <= y
FuncDefs(st, n) == {o \in 1..Len(st.objs) : st.objs[o].on /\ FuncIn(st, o, n) # {}}
DataDefs(st, n) == {o \in 1..Len(st.objs) : st.objs[o].on /\ DataIn(st, o, n) # {}}

\* meaning of a name for object o: a place, None when weak, NoRet when missing
Func(st, o, n) == IF FuncDefs(st, n) # {} THEN TheFunc(st, First(FuncDefs(st, n)), n)
                  ELSE IF Weak(st, o, n) THEN None ELSE NoRet
Data(st, o, n) == IF DataDefs(st, n) # {} THEN TheData(st, First(DataDefs(st, n)), n)
                  ELSE IF Weak(st, o, n) THEN None ELSE NoRet

FType(st, v) == M(st, v.o).fns[v.x].t

\* the slots of the objects from on
Bound(st, from) ==
  \A o \in from..Len(st.objs) :
     /\ \A k \in 1..Len(M(st, o).gm) : Data(st, o, M(st, o).gm[k]) # NoRet
     /\ \A k \in 1..Len(M(st, o).gf) : Func(st, o, M(st, o).gf[k]) # NoRet
Eager(st, from) ==
  \A o \in from..Len(st.objs) : \A k \in 1..Len(M(st, o).fi) :
     LET n == M(st, o).fi[k].n  v == Func(st, o, n) IN
     Weak(st, o, n) \/ (v # NoRet /\ FType(st, v) = M(st, o).fi[k].t)

\* slots are filled once: what they mean is decided when the object is loaded
Got(st, o) == [m |-> [k \in 1..Len(M(st, o).gm) |-> Data(st, o, M(st, o).gm[k])],
               f |-> [k \in 1..Len(M(st, o).gf) |-> Func(st, o, M(st, o).gf[k])]]
GotMem(st, o, n) == st.got[o].m[CHOOSE k \in 1..Len(M(st, o).gm) : M(st, o).gm[k] = n]
GotFunc(st, o, n) == st.got[o].f[CHOOSE k \in 1..Len(M(st, o).gf) : M(st, o).gf[k] = n]

Cells(st, from) ==
  [c \in UNION {{o} \X {4 * (k - 1) : k \in 1..Len(M(st, o).data)} : o \in from..Len(st.objs)} |->
     Num(M(st, c[1]).data[(c[2] \div 4) + 1])]

\* the state after loading what objs from "from" on bring; fails: {}
Admit(st0, from, eager) ==
  IF ~Bound(st0, from) \/ (eager /\ ~Eager(st0, from)) THEN {}
  ELSE {[st0 EXCEPT !.got = @ \o [k \in 1..(Len(st0.objs) - from + 1) |-> Got(st0, from + k - 1)],
                    !.cell = Cells(st0, from) @@ @]}

--------------------------------------------------------------------------
(* Places                                                                  *)
Disjoint(a, b) == a[1] = a[2] \/ b[1] = b[2] \/ a[2] <= b[1] \/ b[2] <= a[1]
AllDisjoint(S) == \A i, j \in 1..Len(S) : i < j => Disjoint(S[i], S[j])

Static(st) == st.cfg.pie = 0            \* the program brings memory, table, stack and heap
MemRange(st, o) == IF o = 1 /\ Static(st) THEN <<0, st.cfg.msz * st.cfg.pg>>
                   ELSE <<st.objs[o].mb, st.objs[o].mb + M(st, o).ms>>
TabRange(st, o) == IF o = 1 /\ Static(st) THEN <<0, st.cfg.tsz>>
                   ELSE <<st.objs[o].tb, st.objs[o].tb + M(st, o).ts>>
Placed(st, o) == (o = 1 /\ Static(st)) \/ st.objs[o].mb # -1
Listed(st, o) == (o = 1 /\ Static(st)) \/ st.objs[o].tb # -1

MemRanges(st) ==
  LET os == SetToSeq({o \in 1..Len(st.objs) : Placed(st, o)}) IN
  [k \in 1..Len(os) |-> MemRange(st, os[k])]
  \o st.mgrown
  \o (IF ~Static(st) /\ st.zone.sl # -1 /\ st.zone.sh # -1 THEN << <<st.zone.sl, st.zone.sh>> >> ELSE <<>>)
  \o (IF ~Static(st) /\ st.zone.hb # -1 /\ st.zone.he # -1 THEN << <<st.zone.hb, st.zone.he>> >> ELSE <<>>)
TabRanges(st) ==
  LET os == SetToSeq({o \in 1..Len(st.objs) : Listed(st, o)})
      ss == SetToSeq(DOMAIN st.slot) IN
  [k \in 1..Len(os) |-> TabRange(st, os[k])]
  \o st.tgrown
  \o [k \in 1..Len(ss) |-> <<st.slot[ss[k]], st.slot[ss[k]] + 1>>]

Fits(st) ==
  /\ \A o \in 1..Len(st.objs) :
       /\ (o = 1 /\ Static(st)) \/ st.objs[o].mb = -1 \/ st.objs[o].mb % Pow(M(st, o).ma) = 0
       /\ (o = 1 /\ Static(st)) \/ st.objs[o].tb = -1 \/ st.objs[o].tb % Pow(M(st, o).ta) = 0
  /\ \A r \in ToSet(MemRanges(st)) : r[1] >= 0 /\ r[1] <= r[2]
  /\ \A r \in ToSet(TabRanges(st)) : r[1] >= 0 /\ (r[1] = r[2] \/ r[1] > 0 \/ Static(st))
  /\ AllDisjoint(MemRanges(st))
  /\ AllDisjoint(TabRanges(st))
  /\ ~Static(st) =>
       LET z == st.zone IN
       /\ z.sh # -1 => z.sh % 16 = 0
       /\ (z.sh # -1 /\ z.sl # -1) => z.sh - z.sl >= st.cfg.ss
       /\ (z.hb # -1 /\ z.he # -1) => z.hb <= z.he
  /\ \A f \in DOMAIN st.slot : st.slot[f] > 0

\* position of a function among the table elements of its own module, 0 none
OwnElem(st, v) == LET S == {k \in 1..Len(M(st, v.o).elems) : M(st, v.o).elems[k] = v.x}
                  IN IF S = {} THEN 0 ELSE First(S)

\* the states in which the value is seen as the number v
Seen(st, val, v) ==
  CASE val.k = "i" -> IF v = val.x THEN {st} ELSE {}
    [] val.k = "m" ->
         LET b == IF val.o = 1 /\ Static(st) THEN 0 ELSE st.objs[val.o].mb IN
         IF b # -1 THEN IF v = b + st.cfg.scr + val.x THEN {st} ELSE {}
         ELSE {s \in {[st EXCEPT !.objs[val.o].mb = v - st.cfg.scr - val.x]} : Fits(s)}
    [] val.k = "f" ->
         LET e == OwnElem(st, val)
             b == IF val.o = 1 /\ Static(st) THEN st.cfg.tb ELSE st.objs[val.o].tb
             key == <<val.o, val.x>> IN
         IF e # 0 THEN
              IF b # -1 THEN IF v = b + e - 1 THEN {st} ELSE {}
              ELSE {s \in {[st EXCEPT !.objs[val.o].tb = v - e + 1]} : Fits(s)}
         ELSE IF key \in DOMAIN st.slot THEN IF v = st.slot[key] THEN {st} ELSE {}
         ELSE {s \in {[st EXCEPT !.slot = (key :> v) @@ @]} : Fits(s)}

Zone(st, z, v) ==
  IF st.zone[z] # -1 THEN IF st.zone[z] = v THEN {st} ELSE {}
  ELSE {s \in {[st EXCEPT !.zone[z] = v]} : Fits(s)}

--------------------------------------------------------------------------
(* Running                                                                 *)
Top(st) == st.stk[Len(st.stk)]
Rest(st) == SubSeq(st.stk, 1, Len(st.stk) - 1)
Fun(st) == M(st, Top(st).o).fns[Top(st).f]
Act(st) == Fun(st).acts[Top(st).pc]
SetTop(st, f) == [st EXCEPT !.stk[Len(st.stk)] = f]
Push(st, f) == [st EXCEPT !.stk = Append(@, f)]
\* hand a result to whoever waits for one
Return(st, r) ==
  IF Rest(st) = <<>> THEN [st EXCEPT !.stk = <<>>, !.ph = "end"]
  ELSE LET s == [st EXCEPT !.stk = Rest(st)] IN
       IF Top(s).k = "init" THEN s ELSE SetTop(s, [Top(s) EXCEPT !.w = 1, !.r = r])

\* a trap or error: the innermost run-time load fails, or the program
Fail(st) ==
  LET L == {k \in 1..Len(st.stk) : st.stk[k].k = "init" /\ st.stk[k].h # 0} IN
  IF L = {} THEN [st EXCEPT !.stk = <<>>, !.ph = "failed"]
  ELSE LET k == CHOOSE x \in L : \A y \in L : y <= x
           s == [st EXCEPT !.stk = SubSeq(@, 1, k - 1),
                           !.objs = [o \in 1..Len(@) |-> IF o \in st.stk[k].s THEN [@[o] EXCEPT !.on = FALSE] ELSE @[o]]]
       IN SetTop(s, [Top(s) EXCEPT !.w = 2])

\* an exception goes to the nearest frame in a try, not through initialisation
Throw(st, v) ==
  LET T == {k \in 1..Len(st.stk) : st.stk[k].k = "fn" /\ k < Len(st.stk)
              /\ LET f == st.stk[k]
                     a == M(st, f.o).fns[f.f].acts[f.pc]
                 IN a.a = "try"}
      I == {k \in 1..Len(st.stk) : st.stk[k].k = "init"}
      t == CHOOSE x \in T : \A y \in T : y <= x
  IN IF T = {} \/ (\E i \in I : i > t) THEN Fail(st)
     ELSE LET s == [st EXCEPT !.stk = SubSeq(@, 1, t)]
          IN SetTop(s, [Top(s) EXCEPT !.w = 3, !.r = v])

\* calling a value with type t and argument p
Call(st, v, t, p) ==
  IF v.k # "f" THEN Fail(st)                       \* missing, or no function there
  ELSE IF FType(st, v) # t THEN Fail(st)
  ELSE Push(st, Frame(v.o, v.x, p))
TailCall(st, v, t, p) ==
  IF v.k # "f" \/ (v.k = "f" /\ FType(st, v) # t) THEN Fail(st)
  ELSE [st EXCEPT !.stk = Append(Rest(st), Frame(v.o, v.x, p))]

Imported(st, o, n) == LET m == M(st, o) IN m.fi[CHOOSE k \in 1..Len(m.fi) : m.fi[k].n = n]

\* needs, transitively, among the objects
\* an object found by name is the first of that name
Dep(st, a) == UNION {LET S == ByName(st.objs, M(st, a).needs[k]) IN IF S = {} THEN {} ELSE {First(S)} :
                     k \in 1..Len(M(st, a).needs)}
RECURSIVE Reach(_, _)
Reach(st, S) == LET N == S \cup UNION {Dep(st, a) : a \in S} IN IF N = S THEN S ELSE Reach(st, N)
Deps(st, a) == Reach(st, Dep(st, a))

InitFunc(st, o, pc) == IF pc = 1 THEN M(st, o).rel
                       ELSE IF M(st, o).ini # 0 THEN M(st, o).ini ELSE M(st, o).ctor

\* object a may be initialised now: nothing is still to come of what it needs,
\* or what that needs in turn.  What depends on a itself does not count.
Ready(st, d, a) == \A c \in Dep(st, a) \ {a} :
                     a \in Deps(st, c) \/ ({c} \cup Deps(st, c)) \cap d = {}

Cell(st, o, off) == st.cell[<<o, off>>]
SetCell(st, o, off, v) == [st EXCEPT !.cell[<<o, off>>] = v]

\* steps without output; {} when the next thing is an output or the end
Silent(st) ==
  IF st.ph # "run" THEN {}
  ELSE LET f == Top(st) IN
  IF f.k = "init" THEN
       LET idle == {o \in f.d : InitFunc(st, o, f.pc) = 0} IN
       IF f.d = {} THEN
            IF f.pc = 1 THEN {SetTop(st, [f EXCEPT !.pc = 2, !.d = f.s])}
            ELSE IF f.h = 0 THEN {[st EXCEPT !.stk = <<Frame(1, M(st, 1).start, 0)>>]}
            ELSE LET s == [st EXCEPT !.stk = Rest(st)]
                 IN {SetTop(s, [Top(s) EXCEPT !.w = 1, !.r = f.h])}
       ELSE {LET s == SetTop(st, [f EXCEPT !.d = f.d \ {o}])
                 g == InitFunc(st, o, f.pc) IN
             IF g = 0 THEN s
             ELSE IF M(st, o).fns[g].t # 1 THEN Fail(s)
             ELSE Push(s, Frame(o, g, 0)) :
               o \in IF \E i \in idle : Ready(st, f.d, i)
                     THEN {CHOOSE i \in idle : Ready(st, f.d, i)}
                     ELSE {o \in f.d : Ready(st, f.d, o)}}
  ELSE IF f.pc > Len(Fun(st).acts) THEN {Return(st, f.p + Fun(st).k)}
  ELSE IF f.w # 0 THEN {}
  ELSE LET a == Act(st)  o == f.o IN
       CASE a.a \in {"call", "try"} -> {Call(st, Func(st, o, a.s), Imported(st, o, a.s).t, a.x)}
         [] a.a = "tail" -> {TailCall(st, Func(st, o, a.s), Imported(st, o, a.s).t, a.x)}
         [] a.a = "icall" -> {Call(st, GotFunc(st, o, a.s), a.t, a.x)}
         [] a.a = "ecall" -> {Call(st, Fn(o, M(st, o).elems[a.k]), a.t, a.x)}
         [] a.a = "pcall" -> {Call(st, Cell(st, o, a.k), a.t, a.x)}
         [] a.a = "self" -> {Call(st, Fn(o, a.k), a.t, a.x)}
         [] a.a = "throw" -> {Throw(st, a.x)}
         [] a.a = "trap" -> {Fail(st)}
         [] a.a = "load" ->
              LET m == IF BadName(st, a.s) THEN 0 ELSE File(st, a.s)
                  n == Len(st.objs)
                  fail == {SetTop(st, [f EXCEPT !.w = 2])}
                  fresh == IF ~Loadable(st, m) THEN fail
                           ELSE LET got == Needed(st, Append(st.objs, NewObj(a.s, m)), n + 1, 1) IN
                                \* what a failed load brought in takes places but stays out of sight
                                LET out == [k \in 1..Len(got[2]) |-> IF k > n THEN [got[2][k] EXCEPT !.on = FALSE] ELSE got[2][k]]
                                    gone == [st EXCEPT !.objs = out,
                                                       !.got = @ \o [k \in 1..(Len(got[2]) - n) |-> [m |-> <<>>, f |-> <<>>]]]
                                    ok == IF got[1] THEN Admit([st EXCEPT !.objs = got[2]], n + 1, FALSE) ELSE {}
                                IN IF ok = {} THEN {SetTop(gone, [f EXCEPT !.w = 2])}
                                   ELSE {Push(s, InitFrame((n + 1)..Len(s.objs), n + 1)) : s \in ok}
              IN IF ByName(st.objs, a.s) # {}          \* it is there already
                 THEN {SetTop(st, [f EXCEPT !.w = 1, !.r = First(ByName(st.objs, a.s))])}
                 ELSE fresh
         [] OTHER -> {}

\* the states after the top frame has put out the number v for its current act
Out(st, v) ==
  LET f == Top(st)  a == Act(st)  o == f.o
      Adv(s) == SetTop(s, [Top(s) EXCEPT !.pc = @ + 1, !.w = 0, !.r = 0])
      Is(x) == IF v = x THEN {Adv(st)} ELSE {}
  IN CASE a.a = "log" -> Is(a.x)
       [] a.a = "arg" -> Is(f.p)
       [] a.a \in {"call", "icall", "ecall", "pcall", "self"} ->
            IF f.w = 1 THEN Is(IF a.t = 2 THEN f.r ELSE 0) ELSE {}
       [] a.a = "try" -> IF f.w = 1 THEN Is(IF a.t = 2 THEN f.r ELSE 0)
                         ELSE IF f.w = 3 THEN Is(1000000 + f.r) ELSE {}
       [] a.a = "mb" -> {Adv(s) : s \in Seen(st, Mem(o, -st.cfg.scr), v)}
       [] a.a = "tb" ->
            IF o = 1 /\ Static(st) THEN Is(st.cfg.tb)
            ELSE IF st.objs[o].tb # -1 THEN Is(st.objs[o].tb)
            ELSE {Adv(s) : s \in {x \in {[st EXCEPT !.objs[o].tb = v]} : Fits(x)}}
       [] a.a = "gm" -> {Adv(s) : s \in Seen(st, GotMem(st, o, a.s), v)}
       [] a.a = "gf" -> {Adv(s) : s \in Seen(st, GotFunc(st, o, a.s), v)}
       [] a.a = "rel" -> {SetCell(Adv(s), o, a.k, IF a.x = 1 THEN GotMem(st, o, a.s) ELSE GotFunc(st, o, a.s)) :
                           s \in Seen(st, IF a.x = 1 THEN GotMem(st, o, a.s) ELSE GotFunc(st, o, a.s), v)}
       [] a.a = "cell" -> {Adv(s) : s \in Seen(st, Cell(st, o, a.k), v)}
       [] a.a = "ld" -> LET g == GotMem(st, o, a.s) IN
            IF g.k # "m" THEN Is(-1) ELSE {Adv(s) : s \in Seen(st, Cell(st, g.o, g.x), v)}
       [] a.a = "st" -> LET g == GotMem(st, o, a.s) IN
            IF g.k # "m" THEN Is(-1)
            ELSE IF v = a.x THEN {SetCell(Adv(st), g.o, g.x, Num(a.x))} ELSE {}
       [] a.a = "sp" -> IF Static(st) THEN Is(st.cfg.sp) ELSE {Adv(s) : s \in Zone(st, "sh", v)}
       [] a.a = "zone" -> IF Static(st) THEN Is(st.cfg.zone[a.s]) ELSE {Adv(s) : s \in Zone(st, a.s, v)}
       [] a.a = "msize" ->
            IF v >= st.msz /\ \A r \in ToSet(MemRanges(st)) : r[2] <= v * st.cfg.pg
            THEN {[Adv(st) EXCEPT !.msz = v]} ELSE {}
       [] a.a = "tsize" ->
            IF v >= st.tsz /\ \A r \in ToSet(TabRanges(st)) : r[2] <= v
            THEN {[Adv(st) EXCEPT !.tsz = v]} ELSE {}
       [] a.a = "mgrow" ->
            IF v >= st.msz
            THEN {s \in {[Adv(st) EXCEPT !.msz = v + a.x, !.mgrown = Append(@, <<v * st.cfg.pg, (v + a.x) * st.cfg.pg>>)]} : Fits(s)}
            ELSE {}
       [] a.a = "tgrow" ->
            IF v >= st.tsz
            THEN {s \in {[Adv(st) EXCEPT !.tsz = v + a.x, !.tgrown = Append(@, <<v, v + a.x>>)]} : Fits(s)}
            ELSE {}
       [] a.a = "load" ->              \* 0 when it worked: the handle goes to cell k
            IF f.w = 1 THEN IF v = 0 THEN {SetCell(Adv(st), o, a.k, Handle(f.r))} ELSE {}
            ELSE IF f.w = 2 THEN Is(1) ELSE {}
       [] a.a = "sym" ->               \* handle from cell k, address to cell t; x: 1 function, 2 data
                                       \* (a cell for a function is cleared by the program first)
            LET c == Cell(st, o, a.k)
                h == c.o
                hit == c.k = "h" /\ ((a.x = 1 /\ FuncIn(st, h, a.s) # {}) \/ (a.x = 2 /\ DataIn(st, h, a.s) # {}))
            IN IF ~hit THEN IF v = 1 THEN {IF a.x = 1 THEN SetCell(Adv(st), o, a.t, Num(0)) ELSE Adv(st)} ELSE {}
               ELSE IF v # 0 THEN {}
               ELSE {SetCell(Adv(st), o, a.t, IF a.x = 1 THEN TheFunc(st, h, a.s) ELSE TheData(st, h, a.s))}
       [] OTHER -> {}

\* a program exits with 0, what fails with 1
Exits(st, status) == \/ st.ph = "end" /\ status = 0
                     \/ st.ph = "failed" /\ status = 1

--------------------------------------------------------------------------
\* the program is loaded: all states it can start from
Start(cfg) ==
  LET st0 == [cfg |-> cfg, objs |-> <<>>, got |-> <<>>, cell |-> <<>>, slot |-> <<>>, stk |-> <<>>,
              ph |-> "failed", mgrown |-> <<>>, tgrown |-> <<>>,
              msz |-> 0, tsz |-> 0, zone |-> [sl |-> -1, sh |-> -1, hb |-> -1, he |-> -1]]
      got == Needed(st0, <<NewObj("<main>", 1)>>, 1, 1)
      ok == IF Loadable(st0, 1) /\ got[1] THEN Admit([st0 EXCEPT !.objs = got[2]], 1, cfg.now = 1) ELSE {}
  IN IF ok = {} THEN st0
     ELSE LET s == CHOOSE x \in ok : TRUE
          IN [s EXCEPT !.ph = "run", !.stk = <<InitFrame(1..Len(s.objs), 0)>>]
=============================================================================
