-------------------------------- MODULE Wasi --------------------------------
(***************************************************************************)
(* WASI preview1 (and the older wasi_unstable) as seen by a guest: a table *)
(* of descriptors over a POSIX file tree, pipes and sockets, and calls     *)
(* that exchange their arguments through the guest memory.                 *)
(*                                                                         *)
(* A call is an event                                                      *)
(*   c: name   u: 1 for wasi_unstable   a: arguments (32-bit ones as        *)
(*   numbers, 64-bit ones as 8 bytes, little endian)                        *)
(*   s: what the guest wrote to its memory before, <<address, bytes>>       *)
(*      (every other byte of the memory is FILL)                            *)
(*   r: errno returned, or -1   t: trap, or -1   x: exit code               *)
(*   g: what the call changed in the memory, <<address, bytes>>             *)
(*                                                                         *)
(* Step(st, e) is the set of states the system may be in after the event;  *)
(* it is empty if the event is not allowed.  Where POSIX or WASI leave the  *)
(* choice (which of several errors is reported, whether a call that traps   *)
(* on its output pointer had its effect), every choice is in the set.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

MEM == 65536
FILL == 238

EACCES == 2   EAGAIN == 6   EBADF == 8    EBUSY == 10   ECONNRESET == 15
EEXIST == 20  EFBIG == 22   EINVAL == 28  EISDIR == 31  ELOOP == 32
EMLINK == 34  ENAMETOOLONG == 37          ENODEV == 43  ENOENT == 44
ENOMEM == 48  ENOTCONN == 53 ENOTDIR == 54 ENOTEMPTY == 55 ENOTSOCK == 57
ENOTSUP == 58 EOVERFLOW == 61 EPERM == 63 EPIPE == 64   ESPIPE == 70
ENOTCAPABLE == 76  EDESTADDRREQ == 17

TRAP_OOB == 3  TRAP_ALIGN == 18  TRAP_EXIT == 11

Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a > b THEN a ELSE b
Zeros(n) == [i \in 1..n |-> 0]
Sub(s, a, n) == SubSeq(s, a + 1, a + n)     \* n elements from offset a

(***************************************************************************)
(* Little-endian numbers                                                   *)
(***************************************************************************)
Bytes4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, (n \div 16777216) % 256>>
Bytes8(n) == Bytes4(n) \o <<0, 0, 0, 0>>

Neg8(b) == b[8] >= 128
\* small enough to be computed with
Small8(b) == b[4] < 32 /\ b[5] = 0 /\ b[6] = 0 /\ b[7] = 0 /\ b[8] = 0
Low(b) == b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * b[4]
\* small in absolute value, negative
SmallNeg8(b) == b[4] >= 224 /\ b[5] = 255 /\ b[6] = 255 /\ b[7] = 255 /\ b[8] = 255
SLow(b) == IF Neg8(b) THEN b[1] + 256 * b[2] + 65536 * b[3] + 16777216 * (b[4] - 256) ELSE Low(b)
\* 32-bit number in memory; values from 2^29 on are all "huge"
U32(b) == IF b[4] >= 32 THEN 536870912 + b[1] ELSE Low(b)

\* unsigned comparison of equally long byte strings
LeU(a, b) ==
    LET d == {i \in DOMAIN a : a[i] # b[i]}
    IN  d = {} \/ LET m == CHOOSE i \in d : \A j \in d : j <= i IN a[m] < b[m]

Bit(n, k) == (n \div (2 ^ k)) % 2 = 1

(***************************************************************************)
(* Guest memory                                                            *)
(***************************************************************************)
\* later segments hide earlier ones
Seg(ss, a) ==
    LET c == {i \in DOMAIN ss : ss[i][1] <= a /\ a < ss[i][1] + Len(ss[i][2])}
    IN  IF c = {} THEN -2
        ELSE LET m == CHOOSE i \in c : \A j \in c : j <= i IN ss[m][2][a - ss[m][1] + 1]

Pre(e, a) == LET b == Seg(e.s, a) IN IF b = -2 THEN FILL ELSE b
Rd(e, a, n) == TLCEval([i \in 1..n |-> Pre(e, a + i - 1)])
Rd32(e, a) == U32(Rd(e, a, 4))

InMem(a, n) == a + n <= MEM
\* the traps a pointer to n bytes with the given alignment allows
Ptr(a, n, al) == (IF a % al # 0 THEN {TRAP_ALIGN} ELSE {})
                 \cup (IF InMem(a, n) THEN {} ELSE {TRAP_OOB})

Covers(ss, a) == \E i \in DOMAIN ss : ss[i][1] <= a /\ a < ss[i][1] + Len(ss[i][2])

(* the memory changed exactly as the writes w say; -1 is any byte *)
Wrote(e, w) ==
    /\ \A i \in DOMAIN e.g : \A j \in 1..Len(e.g[i][2]) :
           LET a == e.g[i][1] + j - 1
               x == Seg(w, a)
           IN  x # -2 /\ (x = -1 \/ x = e.g[i][2][j])
    /\ \A i \in DOMAIN w : \A j \in 1..Len(w[i][2]) :
           LET a == w[i][1] + j - 1
           IN  Covers(e.g, a) \/ Seg(w, a) \in {-1, Pre(e, a)}

(* what was changed lies in the given areas <<address, length>> *)
Within(e, areas) ==
    \A i \in DOMAIN e.g : \A j \in 1..Len(e.g[i][2]) :
        LET a == e.g[i][1] + j - 1
        IN  \E k \in DOMAIN areas : areas[k][1] <= a /\ a < areas[k][1] + areas[k][2]

Whatever(n) == [i \in 1..n |-> -1]

\* the byte at a after the call
Post(e, a) == LET b == Seg(e.g, a) IN IF b = -2 THEN Pre(e, a) ELSE b
PRd(e, a, n) == TLCEval([i \in 1..n |-> Post(e, a + i - 1)])

(***************************************************************************)
(* Ways a call can end                                                     *)
(***************************************************************************)
Ok(st, e, w) == IF e.t = -1 /\ e.r = 0 /\ Wrote(e, w) THEN {st} ELSE {}
Fail(st, e, errs) == IF e.t = -1 /\ e.r \in errs /\ e.r # 0 /\ e.g = <<>> THEN {st} ELSE {}
\* sts: states that the trap may leave behind
Trap(sts, e, ids, areas) == IF e.t \in ids /\ Within(e, areas) THEN sts ELSE {}

(***************************************************************************)
(* State: nodes of the file tree (never reused numbers), descriptors       *)
(***************************************************************************)
FreshT == [is |-> <<>>, no |-> <<>>]        \* nothing known about a time
File(c) == [k |-> "f", c |-> c, e |-> <<>>, p |-> 0, at |-> FreshT, mt |-> FreshT]
Dir(p) == [k |-> "d", c |-> <<>>, e |-> <<>>, p |-> p, at |-> FreshT, mt |-> FreshT]
Link(c) == [k |-> "l", c |-> c, e |-> <<>>, p |-> 0, at |-> FreshT, mt |-> FreshT]

NoFd == [k |-> "none"]
\* k: pre dir file pipe sock lst nul
Fd(k, i) == [k |-> k, i |-> i, off |-> 0, rd |-> TRUE, wr |-> TRUE, ap |-> FALSE, nb |-> FALSE,
             hp |-> <<>>, nm |-> <<>>, ck |-> <<>>]

D(st, n) == IF n \in DOMAIN st.fd THEN st.fd[n] ELSE NoFd
IsOpen(st, n) == n \in DOMAIN st.fd
SetFd(st, n, d) == [st EXCEPT !.fd = (n :> d) @@ @]
DelFd(st, n) == [st EXCEPT !.fd = [m \in DOMAIN @ \ {n} |-> @[m]]]
Node(st, i) == st.ino[i]
SetNode(st, i, nd) == [st EXCEPT !.ino[i] = nd]

Touched(nd) == [nd EXCEPT !.mt = FreshT]

(***************************************************************************)
(* Directories                                                             *)
(***************************************************************************)
Has(nd, nm) == nm \in DOMAIN nd.e
\* cookies of a directory that changed mean nothing
Forget(st, i) == [st EXCEPT !.fd = [n \in DOMAIN @ |->
                     IF @[n].k = "dir" /\ @[n].i = i THEN [@[n] EXCEPT !.ck = <<>>] ELSE @[n]]]
Bind(st, i, nm, to) ==
    Forget([st EXCEPT !.ino[i] = Touched([@ EXCEPT !.e = (nm :> to) @@ @])], i)
Unbind(st, i, nm) ==
    Forget([st EXCEPT !.ino[i] = Touched([@ EXCEPT !.e = [x \in DOMAIN @ \ {nm} |-> @[x]]])], i)
NewNode(st, nd) == [st EXCEPT !.ino = (st.nx :> nd) @@ @, !.nx = @ + 1]

NLink(st, i) == Cardinality({x \in UNION {{<<d, nm>> : nm \in DOMAIN st.ino[d].e} :
                                          d \in {q \in DOMAIN st.ino : st.ino[q].k = "d"}} :
                             st.ino[x[1]].e[x[2]] = i})

Alive(st, i) == \/ i = st.root \/ NLink(st, i) > 0
                \/ \E f \in DOMAIN st.fd : st.fd[f].k \in {"pre", "dir", "file"} /\ st.fd[f].i = i

RECURSIVE Under(_, _, _)
\* directory i is j or lies below j
Under(st, i, j) == i = j \/ (i # 0 /\ st.ino[i].p # i /\ st.ino[i].p # 0 /\ Under(st, st.ino[i].p, j))

(***************************************************************************)
(* Paths                                                                   *)
(***************************************************************************)
SLASH == 47
DOT == <<46>>
DOTDOT == <<46, 46>>

Split(p) ==
    LET f == FoldLeft(LAMBDA acc, b :
                          IF b = SLASH THEN <<Append(acc[1], acc[2]), <<>> >>
                          ELSE <<acc[1], Append(acc[2], b)>>,
                      << <<>>, <<>> >>, p)
    IN  SelectSeq(Append(f[1], f[2]), LAMBDA c : c # <<>>)
EndsSlash(p) == p # <<>> /\ p[Len(p)] = SLASH

\* results of a walk: err, or dir i itself (k = "dot"), or the entry nm of
\* directory par (i = 0 if there is none); sl: a directory is asked for
WErr(es) == [k |-> "err", e |-> es, par |-> 0, nm |-> <<>>, i |-> 0, sl |-> FALSE]
WDot(i) == [k |-> "dot", e |-> {}, par |-> 0, nm |-> <<>>, i |-> i, sl |-> TRUE]
WEnt(par, nm, i, sl) == [k |-> "ent", e |-> {}, par |-> par, nm |-> nm, i |-> i, sl |-> sl]
WOut == [k |-> "out", e |-> {}, par |-> 0, nm |-> <<>>, i |-> 0, sl |-> FALSE]

RECURSIVE Walk(_, _, _, _, _, _)
Walk(st, dir, comps, n, follow, sl) ==
    IF comps = <<>> THEN WDot(dir)
    ELSE LET h == Head(comps)
             t == Tail(comps)
             last == t = <<>>
         IN
         IF h = DOT THEN (IF last THEN WDot(dir) ELSE Walk(st, dir, t, n, follow, sl))
         ELSE IF h = DOTDOT THEN
             (IF st.ino[dir].p = 0 THEN WOut
              ELSE IF last THEN WDot(st.ino[dir].p)
              ELSE Walk(st, st.ino[dir].p, t, n, follow, sl))
         ELSE IF Len(h) > 255 THEN WErr({ENAMETOOLONG})
         ELSE IF ~Has(st.ino[dir], h) THEN
             (IF last THEN WEnt(dir, h, 0, sl) ELSE WErr({ENOENT}))
         ELSE LET i == st.ino[dir].e[h]
                  nd == st.ino[i]
              IN  CASE nd.k = "d" ->
                         (IF last THEN WEnt(dir, h, i, sl) ELSE Walk(st, i, t, n, follow, sl))
                    [] nd.k = "l" ->
                         (IF last /\ ~follow /\ ~sl THEN WEnt(dir, h, i, FALSE)
                          ELSE IF n >= 40 THEN WErr({ELOOP})
                          ELSE IF nd.c[1] = SLASH THEN WErr({ENOENT, EACCES})
                          ELSE Walk(st, dir, Split(nd.c) \o t, n + 1, follow,
                                    sl \/ (last /\ EndsSlash(nd.c))))
                    [] OTHER ->
                         (IF last THEN WEnt(dir, h, i, sl) ELSE WErr({ENOTDIR}))

Resolve(st, base, p, follow) == Walk(st, base, Split(p), 0, follow, EndsSlash(p))

(* The directory a descriptor stands for.  A descriptor of a directory that *)
(* was moved or removed, or that was reached through names that were, is    *)
(* outside of what is specified (Stale).                                    *)
Stale(st, d) ==
    LET w == Walk(st, st.root, Split(d.hp), 0, TRUE, FALSE)
    IN  ~(w.k \in {"ent", "dot"} /\ w.i = d.i)

(* A path argument: errors that it can cause by itself, traps, and if none, *)
(* the descriptor's directory.                                              *)
PathErrs(st, e, fd, p, n) ==
    LET b == Rd(e, p, n)
    IN  (IF IsOpen(st, fd) THEN IF D(st, fd).k \in {"pre", "dir"} THEN {} ELSE {ENOTDIR} ELSE {EBADF})
        \cup (IF InMem(p, n) THEN
                 (IF n = 0 THEN {ENOENT} ELSE {})
                 \cup (IF 0 \in ToSet(b) THEN {EINVAL} ELSE {})
                 \cup (IF n > 0 /\ b[1] = SLASH THEN {EPERM, ENOTCAPABLE} ELSE {})
                 \* too long for any host; which error is found first is not specified
                 \cup (IF n >= 4096 THEN {ENAMETOOLONG, ENOENT, EINVAL, ENOTDIR, EEXIST, EISDIR, EBUSY, ELOOP, ENOTSUP} ELSE {})
              ELSE {})
PathTraps(p, n) == IF InMem(p, n) THEN {} ELSE {TRAP_OOB}
JoinPath(a, b) == a \o <<SLASH>> \o b

LOOSE == [loose |-> TRUE]

(***************************************************************************)
(* Open files                                                              *)
(***************************************************************************)
\* content c with b written at offset o
Patch(c, o, b) ==
    IF b = <<>> THEN c
    ELSE LET n == Greater(Len(c), o + Len(b))
         IN  TLCEval([i \in 1..n |-> IF i > o /\ i <= o + Len(b) THEN b[i - o]
                                     ELSE IF i <= Len(c) THEN c[i] ELSE 0])
Resize(c, n) == TLCEval([i \in 1..n |-> IF i <= Len(c) THEN c[i] ELSE 0])
From(c, o, n) == IF o >= Len(c) THEN <<>> ELSE SubSeq(c, o + 1, Lesser(Len(c), o + n))

(* vectors of buffers *)
IovTraps(e, p, n) ==
    IF p % 4 # 0 THEN {TRAP_ALIGN} \cup (IF InMem(p, 8 * Lesser(n, MEM)) THEN {} ELSE {TRAP_OOB})
    ELSE IF ~InMem(p, 8 * Lesser(n, MEM)) THEN {TRAP_OOB}
    ELSE UNION {Ptr(Rd32(e, p + 8 * i), Rd32(e, p + 8 * i + 4), 1) : i \in 0..(n - 1)}
IovErrs(n) == (IF n = 0 THEN {EINVAL} ELSE {}) \cup (IF n > 1024 THEN {EINVAL} ELSE {})
              \cup (IF n >= MEM THEN {EOVERFLOW, ENOMEM} ELSE {})
Iovs(e, p, n) == TLCEval([i \in 1..n |-> <<Rd32(e, p + 8 * i - 8), Rd32(e, p + 8 * i - 4)>>])
Total(v) == FoldLeft(LAMBDA s, x : s + x[2], 0, v)
Gather(e, v) == FoldLeft(LAMBDA s, x : s \o Rd(e, x[1], x[2]), <<>>, v)
\* the writes that put the bytes b into the buffers v
Scatter(v, b) ==
    FoldLeft(LAMBDA acc, x :
                 LET k == Lesser(x[2], Len(b) - acc[2])
                 IN  IF k = 0 THEN acc
                     ELSE <<Append(acc[1], <<x[1], Sub(b, acc[2], k)>>), acc[2] + k>>,
             << <<>>, 0>>, v)[1]

(* What reading gives: sets of <<bytes, state afterwards>>, or errors *)
ReadErrs(st, fd) ==
    LET d == D(st, fd)
    IN  CASE d.k \in {"none", "pre"} -> {EBADF}
          [] d.k = "dir" -> {EISDIR, EBADF, EINVAL}
          [] d.k = "lst" -> {EINVAL, ENOTCONN}
          [] ~d.rd -> {EBADF}
          [] OTHER -> {}
WriteErrs(st, fd) ==
    LET d == D(st, fd)
    IN  CASE d.k \in {"none", "pre", "dir"} -> {EBADF}
          [] d.k = "lst" -> {EPIPE, ENOTCONN}
          [] ~d.wr -> {EBADF}
          [] OTHER -> {}

(* streams: q: bytes that can be read, o: bytes written and not yet taken   *)
(* by the peer, eof: nothing more will come, rst: may report a reset,       *)
(* brk: writing is impossible, pc: the peer is gone, cap: room for o        *)
Stream == [q |-> <<>>, o |-> <<>>, cap |-> 1000000, eof |-> FALSE, rst |-> FALSE, brk |-> FALSE, pc |-> FALSE]

IsStream(d) == d.k \in {"pipe", "sock"}
S(st, fd) == st.str[D(st, fd).i]
SetS(st, fd, s) == [st EXCEPT !.str[D(st, fd).i] = s]

\* reading nothing from what cannot be read need not fail
EmptyDirRead(st, e, fd, p, n) ==
    D(st, fd).k \in {"dir", "lst"} /\ n \in 1..1024 /\ IovTraps(e, p, n) = {} /\ Total(Iovs(e, p, n)) = 0

FdRead(st, e, fd, p, n, retp, peek) ==
    LET d == D(st, fd)
        errs == ReadErrs(st, fd) \cup IovErrs(n)
        outs == IF IovTraps(e, p, n) = {} THEN Append(Iovs(e, p, n), <<retp, 4>>) ELSE << <<retp, 4>> >>
        traps == IovTraps(e, p, n) \cup Ptr(retp, 4, 4)
    IN  IF errs # {} THEN Fail(st, e, errs) \cup Trap({st}, e, traps, outs)
                          \cup (IF (n = 0 /\ ReadErrs(st, fd) = {}) \/ EmptyDirRead(st, e, fd, p, n)
                                THEN Ok(st, e, << <<retp, Bytes4(0)>> >>) ELSE {})
        ELSE
        LET v == IF IovTraps(e, p, n) = {} THEN Iovs(e, p, n) ELSE <<>>
            b == CASE d.k = "file" -> From(st.ino[d.i].c, d.off, Total(v))
                   [] d.k = "nul" -> <<>>
                   [] OTHER -> From(S(st, fd).q, 0, Total(v))
            st2 == CASE d.k = "file" ->
                          [SetFd(st, fd, [d EXCEPT !.off = @ + Len(b)]) EXCEPT !.ino[d.i].at = FreshT]
                     [] d.k = "nul" -> st
                     [] OTHER -> IF peek THEN st
                                 ELSE SetS(st, fd, [S(st, fd) EXCEPT !.q = SubSeq(@, Len(b) + 1, Len(@))])
            nothing == IsStream(d) /\ S(st, fd).q = <<>> /\ Total(v) > 0
        IN  IF traps # {} THEN Trap({st, st2}, e, traps, outs)
                               \cup (IF IsStream(d) /\ d.nb /\ S(st, fd).q = <<>> /\ ~S(st, fd).eof
                                     THEN Fail(st, e, {EAGAIN}) ELSE {})
                               \cup (IF IsStream(d) /\ S(st, fd).q = <<>> /\ S(st, fd).rst
                                     THEN Fail(SetS(st, fd, [S(st, fd) EXCEPT !.rst = FALSE]), e, {ECONNRESET}) ELSE {})
            ELSE IF nothing /\ ~S(st, fd).eof THEN
                (IF d.nb THEN Fail(st, e, {EAGAIN}) ELSE {})
            ELSE Ok(st2, e, Append(Scatter(v, b), <<retp, Bytes4(Len(b))>>))
                 \cup (IF IsStream(d) /\ S(st, fd).rst /\ S(st, fd).q = <<>>
                       THEN Fail(SetS(st, fd, [S(st, fd) EXCEPT !.rst = FALSE]), e, {ECONNRESET}) ELSE {})
                 \* an empty read of an empty stream
                 \cup (IF IsStream(d) /\ Total(v) = 0 /\ S(st, fd).q = <<>> THEN Fail(st, e, {EAGAIN}) ELSE {})

FdPread(st, e, fd, p, n, o8, retp) ==
    LET d == D(st, fd)
        errs == ReadErrs(st, fd) \cup IovErrs(n)
                \cup (IF d.k \in {"pipe", "sock", "lst"} THEN {ESPIPE} ELSE {})
                \cup (IF Neg8(o8) THEN {EINVAL} ELSE {})
        outs == IF IovTraps(e, p, n) = {} THEN Append(Iovs(e, p, n), <<retp, 4>>) ELSE << <<retp, 4>> >>
        traps == IovTraps(e, p, n) \cup Ptr(retp, 4, 4)
    IN  IF errs # {} THEN Fail(st, e, errs) \cup Trap({st}, e, traps, outs)
                          \cup (IF ((errs = {EINVAL} /\ n = 0) \/ EmptyDirRead(st, e, fd, p, n)) /\ ~Neg8(o8)
                                THEN Ok(st, e, << <<retp, Bytes4(0)>> >>) ELSE {})
        ELSE
        LET v == IF IovTraps(e, p, n) = {} THEN Iovs(e, p, n) ELSE <<>>
            b == IF d.k = "nul" \/ ~Small8(o8) THEN <<>> ELSE From(st.ino[d.i].c, Low(o8), Total(v))
            st2 == IF d.k = "nul" THEN st ELSE [st EXCEPT !.ino[d.i].at = FreshT]
        IN  IF traps # {} THEN Trap({st, st2}, e, traps, outs)
                               \cup (IF Small8(o8) THEN {} ELSE Fail(st, e, {EINVAL, EOVERFLOW}))
            ELSE (IF Small8(o8) THEN {} ELSE Fail(st, e, {EINVAL, EOVERFLOW})) \cup Ok(st2, e, Append(Scatter(v, b), <<retp, Bytes4(Len(b))>>))

FdWrite(st, e, fd, p, n, retp) ==
    LET d == D(st, fd)
        errs == WriteErrs(st, fd) \cup IovErrs(n)
        traps == IovTraps(e, p, n) \cup Ptr(retp, 4, 4)
        outs == << <<retp, 4>> >>
    IN  IF errs # {} THEN Fail(st, e, errs) \cup Trap({st}, e, traps, outs)
                          \cup (IF (n = 0 /\ WriteErrs(st, fd) = {}) \/ EmptyDirRead(st, e, fd, p, n)
                                THEN Ok(st, e, << <<retp, Bytes4(0)>> >>) ELSE {})
        ELSE
        LET b == IF IovTraps(e, p, n) = {} THEN Gather(e, Iovs(e, p, n)) ELSE <<>>
            o == IF d.k = "file" /\ d.ap THEN Len(st.ino[d.i].c) ELSE d.off
            st2 == CASE d.k = "file" ->
                          IF b = <<>> THEN st
                          ELSE SetNode(SetFd(st, fd, [d EXCEPT !.off = o + Len(b)]), d.i,
                                       Touched([st.ino[d.i] EXCEPT !.c = Patch(@, o, b)]))
                     [] d.k = "nul" -> st
                     [] OTHER -> SetS(st, fd, [S(st, fd) EXCEPT !.o = @ \o b])
            brk == IsStream(d) /\ S(st, fd).brk
        IN  IF brk THEN Fail(st, e, {EPIPE} \cup (IF S(st, fd).rst THEN {ECONNRESET} ELSE {}))
                        \cup Trap({st}, e, traps, outs)
                        \cup (IF b = <<>> THEN Ok(st, e, << <<retp, Bytes4(0)>> >>) ELSE {})
            ELSE IF traps # {} THEN Trap({st, st2}, e, traps, outs)
            \* a short write is done as a whole or not; who does not want to wait is told
            ELSE IF IsStream(d) /\ b # <<>> /\ S(st, fd).o # <<>> /\ Len(S(st, fd).o) + Len(b) > S(st, fd).cap
            THEN (IF d.nb THEN Fail(st, e, {EAGAIN}) ELSE {})
            ELSE Ok(st2, e, << <<retp, Bytes4(Len(b))>> >>)

FdPwrite(st, e, fd, p, n, o8, retp) ==
    LET d == D(st, fd)
        traps == IovTraps(e, p, n) \cup Ptr(retp, 4, 4)
        b == IF IovTraps(e, p, n) = {} THEN Gather(e, Iovs(e, p, n)) ELSE <<>>
        errs == WriteErrs(st, fd) \cup IovErrs(n)
                \cup (IF d.k \in {"pipe", "sock", "lst"} THEN {ESPIPE} ELSE {})
                \cup (IF Neg8(o8) THEN {EINVAL} ELSE {})
                \cup (IF d.k = "file" /\ ~Neg8(o8) /\ ~Small8(o8) THEN {EFBIG, EINVAL, EOVERFLOW} ELSE {})
        outs == << <<retp, 4>> >>
    IN  IF errs # {} THEN Fail(st, e, errs) \cup Trap({st}, e, traps, outs)
                          \cup (IF errs \subseteq {EINVAL, EFBIG, EOVERFLOW} /\ b = <<>> /\ ~Neg8(o8)
                                THEN Ok(st, e, << <<retp, Bytes4(0)>> >>) ELSE {})
                          \* appended
                          \cup (IF errs = {EINVAL, EFBIG, EOVERFLOW} /\ d.ap /\ ~Neg8(o8) /\ n \in 1..1024
                                THEN LET s2 == SetNode(st, d.i, Touched([st.ino[d.i] EXCEPT !.c = @ \o b]))
                                     IN  IF traps # {} THEN Trap({st, s2}, e, traps, outs)
                                         ELSE Ok(s2, e, << <<retp, Bytes4(Len(b))>> >>)
                                ELSE {})
        ELSE
        LET at(o) == IF b = <<>> \/ d.k # "file" THEN st
                     ELSE SetNode(st, d.i, Touched([st.ino[d.i] EXCEPT !.c = Patch(@, o, b)]))
            \* where the system appends whatever the offset is
            sts == {at(IF Small8(o8) THEN Low(o8) ELSE 0)}
                   \cup (IF d.k = "file" /\ d.ap THEN {at(Len(st.ino[d.i].c))} ELSE {})
        IN  IF traps # {} THEN Trap({st} \cup sts, e, traps, outs)
                               \cup (IF Small8(o8) THEN {} ELSE Fail(st, e, {EINVAL, EOVERFLOW}))
            ELSE UNION {Ok(s2, e, << <<retp, Bytes4(Len(b))>> >>) : s2 \in sts}
                 \cup (IF Small8(o8) THEN {} ELSE Fail(st, e, {EINVAL, EOVERFLOW}))

SeekErrs(st, fd) ==
    LET d == D(st, fd)
    IN  CASE d.k \in {"none", "pre"} -> {EBADF}
          [] d.k = "dir" -> {EBADF, EISDIR}
          [] d.k \in {"pipe", "sock", "lst"} -> {ESPIPE}
          [] OTHER -> {}

FdSeek(st, e, fd, o8, wh, retp) ==
    LET d == D(st, fd)
        whence == IF e.u = 0 THEN wh ELSE CASE wh = 0 -> 1 [] wh = 1 -> 2 [] wh = 2 -> 0 [] OTHER -> 3
        base == CASE whence = 0 -> 0
                  [] d.k # "file" -> 0
                  [] whence = 1 -> d.off
                  [] OTHER -> Len(st.ino[d.i].c)
        errs == SeekErrs(st, fd) \cup (IF whence \notin 0..2 THEN {EINVAL} ELSE {})
        traps == Ptr(retp, 8, 8)
        fits == Small8(o8) \/ SmallNeg8(o8)
        to == IF fits THEN base + SLow(o8) ELSE 0
    IN  IF errs # {} THEN Fail(st, e, errs) \cup Trap({st}, e, traps, << <<retp, 8>> >>)
        ELSE IF d.k = "nul" THEN Ok(st, e, << <<retp, Whatever(8)>> >>) \cup Trap({st}, e, traps, << <<retp, 8>> >>)
                                 \cup Fail(st, e, {EINVAL})
        ELSE IF ~fits \/ to < 0 THEN Fail(st, e, {EINVAL, EOVERFLOW})
                                     \cup Trap({st}, e, traps, << <<retp, 8>> >>)
        ELSE LET st2 == SetFd(st, fd, [d EXCEPT !.off = to])
             IN  IF traps # {} THEN Trap({st, st2}, e, traps, << <<retp, 8>> >>)
                 ELSE Ok(st2, e, << <<retp, Bytes8(to)>> >>)

FdTell(st, e, fd, retp) ==
    LET d == D(st, fd)
        errs == SeekErrs(st, fd)
        traps == Ptr(retp, 8, 8)
    IN  IF errs # {} THEN Fail(st, e, errs) \cup Trap({st}, e, traps, << <<retp, 8>> >>)
        ELSE IF traps # {} THEN Trap({st}, e, traps, << <<retp, 8>> >>)
        ELSE Ok(st, e, << <<retp, IF d.k = "nul" THEN Whatever(8) ELSE Bytes8(d.off)>> >>)

FdSetSize(st, e, fd, n8) ==
    LET d == D(st, fd)
        errs == CASE d.k \in {"none", "pre"} -> {EBADF}
                  [] d.k = "dir" -> {EBADF, EINVAL, EISDIR}
                  [] d.k # "file" -> {EINVAL, EBADF, ESPIPE}
                  [] ~d.wr -> {EINVAL, EBADF}
                  [] OTHER -> {}
        big == (IF Neg8(n8) THEN {EINVAL} ELSE IF ~Small8(n8) THEN {EFBIG, EINVAL} ELSE {})
    IN  IF errs \cup big # {} THEN Fail(st, e, errs \cup big)
        ELSE Ok(SetNode(st, d.i, Touched([st.ino[d.i] EXCEPT !.c = Resize(@, Low(n8))])), e, <<>>)

FdAllocate(st, e, fd, o8, n8) ==
    LET d == D(st, fd)
        errs == (CASE d.k \in {"none", "pre"} -> {EBADF}
                   [] d.k = "dir" -> {EBADF, EISDIR, ENODEV}
                   [] d.k \in {"pipe", "sock", "lst"} -> {ESPIPE, ENODEV, EBADF}
                   [] d.k = "nul" -> {ENODEV, ESPIPE}
                   [] ~d.wr -> {EBADF}
                   [] OTHER -> {})
                \cup (IF Neg8(o8) \/ Neg8(n8) \/ n8 = Zeros(8) THEN {EINVAL} ELSE {})
                \cup (IF (~Small8(o8) /\ ~Neg8(o8)) \/ (~Small8(n8) /\ ~Neg8(n8)) THEN {EFBIG} ELSE {})
    IN  IF errs = {EFBIG} /\ d.k = "file"      \* the attempt may count as a change
        THEN Fail(st, e, errs) \cup Fail(SetNode(st, d.i, Touched(st.ino[d.i])), e, errs)
        ELSE IF errs # {} THEN Fail(st, e, errs)
        ELSE Ok(SetNode(st, d.i, Touched([st.ino[d.i] EXCEPT !.c = Resize(@, Greater(Len(@), Low(o8) + Low(n8)))])), e, <<>>)

FdSync(st, e, fd) ==
    LET d == D(st, fd)
    IN  CASE d.k \in {"none", "pre"} -> Fail(st, e, {EBADF})
          [] d.k \in {"file", "dir"} -> Ok(st, e, <<>>)
          [] OTHER -> Ok(st, e, <<>>) \cup Fail(st, e, {EINVAL, ENOTSUP})

\* advice never has an effect
FdAdvise(st, e, fd, o8, n8, adv) ==
    LET d == D(st, fd)
    IN  CASE d.k \in {"none", "pre"} -> Fail(st, e, {EBADF})
          [] OTHER -> Ok(st, e, <<>>)
                      \cup (IF d.k # "file" THEN Fail(st, e, {ESPIPE, EBADF}) ELSE {})
                      \cup (IF adv > 5 \/ Neg8(o8) \/ Neg8(n8) THEN Fail(st, e, {EINVAL}) ELSE {})

FdClose(st, e, fd) ==
    IF IsOpen(st, fd) THEN Ok(DelFd(st, fd), e, <<>>) ELSE Fail(st, e, {EBADF})

FdRenumber(st, e, from, to) ==
    IF ~IsOpen(st, from) \/ ~IsOpen(st, to) THEN Fail(st, e, {EBADF})
    ELSE IF from = to THEN Ok(st, e, <<>>)
    ELSE Ok(SetFd(DelFd(st, from), to, D(st, from)), e, <<>>)
         \cup (IF "pre" \in {D(st, from).k, D(st, to).k} THEN Fail(st, e, {ENOTSUP}) ELSE {})

(***************************************************************************)
(* Attributes                                                              *)
(***************************************************************************)
TypeOf(st, d) == CASE d.k \in {"pre", "dir"} -> {3}
                   [] d.k = "file" -> {4}
                   [] d.k \in {"sock", "lst"} -> {6}
                   [] d.k = "nul" -> {2}
                   [] OTHER -> {0, 1, 2, 5, 6}      \* pipes have no type of their own
NodeType(nd) == CASE nd.k = "d" -> 3 [] nd.k = "f" -> 4 [] nd.k = "l" -> 7

\* rights that a C library looks at: read(1) seek(2) tell(5) write(6) path_open(13)
RightsOk(k, b) ==
    LET bit(j) == Bit(b[j \div 8 + 1], j % 8)
    IN  CASE k \in {"pre", "dir"} -> bit(13) /\ ~bit(1) /\ ~bit(6) /\ ~bit(2) /\ ~bit(5)
          [] k = "file" -> bit(1) /\ bit(6) /\ bit(2) /\ bit(5)
          [] k = "nul" -> bit(1) /\ bit(6) /\ ~bit(2) /\ ~bit(5)
          [] OTHER -> bit(1) /\ bit(6)

FdFdstatGet(st, e, fd, p) ==
    LET d == D(st, fd)
        traps == Ptr(p, 24, 8)
        w == PRd(e, p, 24)
    IN  IF d.k = "none" THEN Fail(st, e, {EBADF}) \cup Trap({st}, e, traps, << <<p, 24>> >>)
        ELSE IF traps # {} THEN Trap({st}, e, traps, << <<p, 24>> >>)
        ELSE IF w[1] \in TypeOf(st, d)
                /\ (d.k # "pre" => w[3] = (IF d.ap THEN 1 ELSE 0) + (IF d.nb THEN 4 ELSE 0) /\ w[4] = 0)
                /\ RightsOk(d.k, SubSeq(w, 9, 16))
                /\ Bit(w[17], 1) /\ Bit(w[17], 6)
             THEN Ok(st, e, << <<p, Whatever(24)>> >>)
             ELSE {}

FdSetFlags(st, e, fd, fl) ==
    LET d == D(st, fd)
        set(ap) == SetFd(st, fd, [d EXCEPT !.nb = Bit(fl, 2), !.ap = ap])
    IN  IF d.k \in {"none", "pre"} THEN Fail(st, e, {EBADF} \cup (IF fl \in {0, 4} THEN {} ELSE {ENOTSUP, EINVAL}))
        ELSE IF fl \in {0, 4} THEN Ok(set(d.ap), e, <<>>) \cup Ok(set(FALSE), e, <<>>)
        ELSE Fail(st, e, {ENOTSUP, EINVAL}) \cup (IF fl \in {1, 5} THEN Ok(set(TRUE), e, <<>>) ELSE {})

FdSetRights(st, e, fd) ==
    IF IsOpen(st, fd) THEN Ok(st, e, <<>>) \cup Fail(st, e, {ENOTSUP}) ELSE Fail(st, e, {EBADF})

TimeOk(k, b) == (k.is # <<>> => b = k.is) /\ (k.no # <<>> => b # k.no)

(* a file status at p: what is known about the node must be there; device  *)
(* and inode numbers identify nodes                                        *)
StatLen(e) == IF e.u = 1 THEN 56 ELSE 64
StatNode(st, e, i, p) ==
    LET w == PRd(e, p, StatLen(e))
        nd == st.ino[i]
        id == SubSeq(w, 1, 16)
        nl == IF e.u = 1 THEN SubSeq(w, 21, 24) \o Zeros(4) ELSE SubSeq(w, 25, 32)
        o == IF e.u = 1 THEN 24 ELSE 32
        live == {j \in DOMAIN st.seen : j # i /\ Alive(st, j)}
    IN  IF /\ w[17] = NodeType(nd)
           /\ (nd.k # "d" => nl = Bytes8(NLink(st, i)))
           /\ (nd.k # "d" => Sub(w, o, 8) = Bytes8(Len(nd.c)))
           /\ (nd.k = "f" => TimeOk(nd.at, Sub(w, o + 8, 8)))
           /\ TimeOk(nd.mt, Sub(w, o + 16, 8))
           /\ (i \in DOMAIN st.seen => st.seen[i] = id)
           /\ \A j \in live : st.seen[j] # id
        THEN Ok([st EXCEPT !.seen = (i :> id) @@ @], e, << <<p, Whatever(StatLen(e))>> >>)
        ELSE {}

FdFilestatGet(st, e, fd, p) ==
    LET d == D(st, fd)
        traps == Ptr(p, StatLen(e), 8)
        area == << <<p, StatLen(e)>> >>
    IN  IF d.k = "none" THEN Fail(st, e, {EBADF}) \cup Trap({st}, e, traps, area)
        ELSE IF d.k = "pre" THEN Fail(st, e, {EBADF}) \cup Trap({st}, e, traps, area)
                                 \cup (IF traps = {} THEN StatNode(st, e, d.i, p) ELSE {})
        ELSE IF traps # {} THEN Trap({st}, e, traps, area)
        ELSE IF d.k \in {"file", "dir"} THEN StatNode(st, e, d.i, p)
        ELSE IF Post(e, p + 16) \in TypeOf(st, d) THEN Ok(st, e, << <<p, Whatever(StatLen(e))>> >>) ELSE {}

\* flags 1 set atime 2 atime now 4 set mtime 8 mtime now
SetTimes(st, e, i, a8, m8, fl) ==
    LET nd == st.ino[i]
        to(old, set, now, v) == IF set THEN [is |-> v, no |-> <<>>]
                                ELSE IF now THEN [is |-> <<>>, no |-> old.is] ELSE old
        nd2 == [nd EXCEPT !.at = to(@, Bit(fl, 0), Bit(fl, 1), a8), !.mt = to(@, Bit(fl, 2), Bit(fl, 3), m8)]
    IN  Ok(SetNode(st, i, nd2), e, <<>>)
        \* the other combinations need not be supported
        \cup (IF fl \in {5, 10} THEN {} ELSE Fail(st, e, {ENOTSUP}))
BadFst(fl) == (Bit(fl, 0) /\ Bit(fl, 1)) \/ (Bit(fl, 2) /\ Bit(fl, 3)) \/ fl > 15

FdSetTimes(st, e, fd, a8, m8, fl) ==
    LET d == D(st, fd)
        errs == (IF d.k \in {"none", "pre"} THEN {EBADF} ELSE {}) \cup (IF BadFst(fl) THEN {EINVAL, ENOTSUP} ELSE {})
    IN  IF errs # {} THEN Fail(st, e, errs)
                          \cup (IF d.k = "none" /\ fl \notin {5, 10} THEN Fail(st, e, {ENOTSUP}) ELSE {})
                          \cup (IF d.k = "pre" THEN Fail(st, e, {ENOTSUP}) \cup (IF BadFst(fl) THEN {} ELSE SetTimes(st, e, d.i, a8, m8, fl)) ELSE {})
        ELSE IF d.k \in {"file", "dir"} THEN SetTimes(st, e, d.i, a8, m8, fl)
        ELSE Ok(st, e, <<>>) \cup Fail(st, e, {EACCES, EPERM, EINVAL, ENOTSUP})

PrestatGet(st, e, fd, p) ==
    LET d == D(st, fd)
        traps == Ptr(p, 8, 4)
    IN  IF d.k # "pre" THEN Fail(st, e, {EBADF}) \cup Trap({st}, e, traps, << <<p, 8>> >>)
        ELSE IF traps # {} THEN Trap({st}, e, traps, << <<p, 8>> >>)
        ELSE Ok(st, e, << <<p, <<0, -1, -1, -1>> \o Bytes4(Len(d.nm))>> >>)

PrestatName(st, e, fd, p, n) ==
    LET d == D(st, fd)
        traps == Ptr(p, n, 1)
    IN  IF d.k # "pre" THEN Fail(st, e, {EBADF}) \cup Trap({st}, e, traps, << <<p, n>> >>)
        ELSE IF n < Len(d.nm) THEN Fail(st, e, {EINVAL, ENAMETOOLONG}) \cup Trap({st}, e, traps, << <<p, n>> >>)
        ELSE IF Ptr(p, Len(d.nm), 1) # {} THEN Trap({st}, e, traps, << <<p, n>> >>)
        ELSE Ok(st, e, << <<p, d.nm>> >>) \cup Trap({st}, e, traps, << <<p, n>> >>)

(***************************************************************************)
(* Reading directories.  ck maps cookies to the set of names that come     *)
(* before them; it is dropped when the directory changes.                  *)
(***************************************************************************)
RECURSIVE Dirents(_, _, _, _)
\* the complete entries in a buffer of n bytes at p
Dirents(e, p, n, acc) ==
    IF n < 24 THEN acc
    ELSE LET h == PRd(e, p, 24)
             nl == U32(SubSeq(h, 17, 20))
         IN  IF nl > n - 24 THEN acc
             ELSE Dirents(e, p + 24 + nl, n - 24 - nl,
                          Append(acc, [next |-> SubSeq(h, 1, 8), ino |-> SubSeq(h, 9, 16), ty |-> h[21],
                                       nm |-> PRd(e, p + 24, nl), z |-> 24 + nl]))

Names(st, i) == DOMAIN st.ino[i].e \cup {DOT, DOTDOT}

FdReaddir(st, e, fd, p, n, c8, retp) ==
    LET d == D(st, fd)
        traps == Ptr(p, n, 1) \cup Ptr(retp, 4, 4)
        areas == << <<p, n>>, <<retp, 4>> >>
        errs == CASE d.k \in {"none", "pre"} -> {EBADF}
                  [] d.k # "dir" -> {ENOTDIR, EBADF}
                  [] OTHER -> {}
        first == c8 = Zeros(8)
        known == first \/ c8 \in DOMAIN d.ck
        before == IF first THEN {} ELSE d.ck[c8]
        got == U32(PRd(e, retp, 4))
    IN  IF errs # {} THEN Fail(st, e, errs) \cup Trap({st}, e, traps, areas)
                          \cup (IF Neg8(c8) THEN Fail(st, e, {EINVAL}) ELSE {})
                          \cup (IF d.k = "pre" /\ e.r = 0 THEN {LOOSE} ELSE {})
        ELSE IF ~known THEN
             Fail(st, e, {EINVAL, ENOENT, EOVERFLOW})
             \cup (IF e.t = -1 /\ e.r = 0 /\ Within(e, areas) THEN {st} ELSE {})
             \cup Trap({st}, e, traps, areas)
        ELSE IF TRAP_ALIGN \in Ptr(retp, 4, 4) \/ TRAP_OOB \in Ptr(retp, 4, 4) THEN
             Trap({st}, e, traps, areas)
        \* a buffer that is not needed as a whole may go unnoticed
        ELSE IF p <= retp /\ retp < p + n THEN   \* the result lies within the buffer
             Trap({st}, e, Ptr(p, n, 1), areas)
             \cup (IF e.t = -1 /\ e.r = 0 /\ Within(e, areas) THEN {st} ELSE {})
        ELSE Trap({st}, e, Ptr(p, n, 1), areas)
             \cup
             (IF ~(e.t = -1 /\ e.r = 0 /\ got <= n /\ (got < n => InMem(p, got)) /\ Within(e, areas)) THEN {}
              ELSE LET es == Dirents(e, p, IF p >= MEM THEN 0 ELSE Lesser(got, MEM - p), <<>>)
                       nms == [i \in DOMAIN es |-> es[i].nm]
                       have == {nms[i] : i \in DOMAIN nms}
                       rest == Names(st, d.i) \ before
                       used == FoldLeft(LAMBDA s, x : s + x.z, 0, es)
                       gone == d.i \notin DOMAIN st.ino \/ st.ino[d.i].p = -1
                       node(nm) == IF nm = DOT THEN d.i ELSE IF nm = DOTDOT THEN st.ino[d.i].p ELSE st.ino[d.i].e[nm]
                       ck2 == [c \in {es[i].next : i \in DOMAIN es} |->
                                  before \cup {nms[j] : j \in 1..(CHOOSE i \in DOMAIN es : es[i].next = c)}]
                   IN  IF gone THEN (IF got = 0 THEN {st} ELSE {})
                       ELSE IF /\ Cardinality(have) = Len(es)
                               /\ have \subseteq rest
                               /\ (got < n => have = rest /\ used = got)
                               /\ (got = n /\ have = rest => used = got)
                               \* the next entry would have fitted
                               /\ (got = n /\ have # rest =>
                                      \E x \in rest \ have : used + 24 + Len(x) > n)
                               /\ Cardinality({es[i].next : i \in DOMAIN es}) = Len(es)
                               /\ \A i \in DOMAIN es :
                                      LET j == node(nms[i])
                                      IN  /\ j \in DOMAIN st.ino => es[i].ty = NodeType(st.ino[j])
                                          /\ j \in DOMAIN st.seen /\ nms[i] # DOTDOT =>
                                                 es[i].ino = SubSeq(st.seen[j], 9, 16)
                            THEN {SetFd(st, fd, [d EXCEPT !.ck = ck2 @@ @])}
                            ELSE {})

(***************************************************************************)
(* Path operations.  Each has the form: argument errors, traps, then the   *)
(* operation on the tree.                                                  *)
(***************************************************************************)
\* the limit may apply to the path together with that of its directory
LongFail(st, e, n) == IF n > 3000 THEN Fail(st, e, {ENAMETOOLONG}) ELSE {}

PathOp(st, e, fd, p, n, xerrs, xtraps, areas, op(_)) ==
    LET errs == PathErrs(st, e, fd, p, n) \cup xerrs
        traps == PathTraps(p, n) \cup xtraps
    IN  IF traps # {} \/ errs # {} THEN
            (IF errs # {} THEN Fail(st, e, errs) ELSE {})
            \cup (IF traps # {} THEN
                     \* the operation may have been done, or have failed, before the trap was noticed
                     Trap(IF PathErrs(st, e, fd, p, n) = {} /\ PathTraps(p, n) = {} /\ xerrs = {}
                          THEN {st} \cup op([e EXCEPT !.t = -1, !.r = 0, !.g = <<>>]) \cup {LOOSE} ELSE {st},
                          e, traps, areas)
                     \cup (IF PathErrs(st, e, fd, p, n) = {} /\ PathTraps(p, n) = {} /\ xerrs = {}
                           THEN {x \in op(e) : e.t = -1 /\ e.r # 0} ELSE {})
                  ELSE {})
        ELSE IF Stale(st, D(st, fd)) THEN {LOOSE}
        ELSE op(e) \cup LongFail(st, e, n)

BaseOf(st, fd) == D(st, fd).i

Mkdir(st, e, fd, p, n) ==
    PathOp(st, e, fd, p, n, {}, {}, <<>>, LAMBDA ee :
        LET w == Resolve(st, BaseOf(st, fd), Rd(e, p, n), FALSE)
        IN  CASE w.k = "out" -> {LOOSE}
              [] w.k = "err" -> Fail(st, ee, w.e \cup (IF w.e = {ENOTDIR} \/ EndsSlash(Rd(e, p, n)) THEN {EEXIST} ELSE {}))
              [] w.k = "dot" -> Fail(st, ee, {EEXIST})
              [] w.i # 0 -> Fail(st, ee, {EEXIST})
              \* a dangling link with a slash
              [] EndsSlash(Rd(e, p, n)) /\ Walk(st, BaseOf(st, fd), Split(Rd(e, p, n)), 0, FALSE, FALSE).i # 0 ->
                     Fail(st, ee, {EEXIST, ENOENT, ENOTDIR})
                     \cup Ok(Bind(NewNode(st, Dir(w.par)), w.par, w.nm, st.nx), ee, <<>>)
              [] OTHER -> Ok(Bind(NewNode(st, Dir(w.par)), w.par, w.nm, st.nx), ee, <<>>))

\* a removed directory stays as an object without a place
Drop(st, i) == [st EXCEPT !.ino[i] = [@ EXCEPT !.p = -1, !.e = <<>>]]

Rmdir(st, e, fd, p, n) ==
    PathOp(st, e, fd, p, n, {}, {}, <<>>, LAMBDA ee :
        LET b == Rd(e, p, n)
            cs == Split(b)
            l == IF cs = <<>> THEN DOT ELSE cs[Len(cs)]
            w == Resolve(st, BaseOf(st, fd), b, FALSE)
        IN  CASE w.k = "out" -> {LOOSE}
              [] l = DOT -> Fail(st, ee, IF w.k = "err" THEN w.e \cup {EINVAL} ELSE {EINVAL})
              [] l = DOTDOT -> Fail(st, ee, IF w.k = "err" THEN w.e \cup {ENOTEMPTY, EINVAL, EEXIST, EBUSY}
                                            ELSE {ENOTEMPTY, EINVAL, EEXIST, EBUSY})
              [] w.k = "err" -> Fail(st, ee, w.e \cup {ENOTDIR})
              \* reached through a link with a slash
              [] w.k = "dot" \/ w.nm # l -> Fail(st, ee, {ENOTDIR, ENOENT, EINVAL, ENOTEMPTY})
              [] w.i = 0 -> Fail(st, ee, {ENOENT} \cup (IF EndsSlash(b) THEN {ENOTDIR} ELSE {}))
              [] st.ino[w.i].k # "d" -> Fail(st, ee, {ENOTDIR})
              [] EndsSlash(b) /\ st.ino[st.ino[w.par].e[w.nm]].k = "l" -> Fail(st, ee, {ENOTDIR})
              [] DOMAIN st.ino[w.i].e # {} -> Fail(st, ee, {ENOTEMPTY, EEXIST})
              [] OTHER -> Ok(Drop(Unbind(st, w.par, w.nm), w.i), ee, <<>>))

Unlink(st, e, fd, p, n) ==
    PathOp(st, e, fd, p, n, {}, {}, <<>>, LAMBDA ee :
        LET b == Rd(e, p, n)
            cs == Split(b)
            w == Walk(st, BaseOf(st, fd), cs, 0, FALSE, FALSE)
            wf == Resolve(st, BaseOf(st, fd), b, FALSE)
        IN  CASE w.k = "out" -> {LOOSE}
              [] w.k = "err" -> Fail(st, ee, w.e)
              [] w.k = "dot" -> Fail(st, ee, {EISDIR, EPERM, EBUSY, EINVAL, ENOTEMPTY})
              [] w.i = 0 -> Fail(st, ee, {ENOENT})
              [] st.ino[w.i].k = "d" -> Fail(st, ee, {EISDIR, EPERM})
              [] EndsSlash(b) -> Fail(st, ee, {ENOTDIR} \cup (IF st.ino[w.i].k = "l" THEN {EISDIR, EPERM, ENOENT, ELOOP} ELSE {}))
              [] OTHER -> Ok(Unbind(st, w.par, w.nm), ee, <<>>))

Symlink(st, e, tp, tn, fd, p, n) ==
    IF ~InMem(tp, tn) THEN
        Fail(st, e, PathErrs(st, e, fd, p, n)) \cup Trap({st}, e, {TRAP_OOB}, <<>>)
    ELSE
    PathOp(st, e, fd, p, n,
           (IF tn = 0 THEN {ENOENT, EINVAL} ELSE {})
           \cup (IF 0 \in ToSet(Rd(e, tp, tn)) THEN {EINVAL} ELSE {})
           \cup (IF tn >= 4096 THEN {ENAMETOOLONG, ENOENT, ENOTDIR, EEXIST, ELOOP} ELSE {}),
           {}, <<>>, LAMBDA ee :
        LET w == Resolve(st, BaseOf(st, fd), Rd(e, p, n), FALSE)
        IN  CASE w.k = "out" -> {LOOSE}
              [] w.k = "err" -> Fail(st, ee, w.e \cup (IF w.e = {ENOTDIR} \/ EndsSlash(Rd(e, p, n)) THEN {EEXIST} ELSE {}))
              [] w.k = "dot" -> Fail(st, ee, {EEXIST})
              [] w.i # 0 -> Fail(st, ee, {EEXIST} \cup (IF w.sl THEN {ENOTDIR} ELSE {}))
              [] w.sl -> Fail(st, ee, {ENOENT, ENOTDIR, EEXIST})
              [] OTHER -> Ok(Bind(NewNode(st, Link(Rd(e, tp, tn))), w.par, w.nm, st.nx), ee, <<>>))

Readlink(st, e, fd, p, n, bp, bn, retp) ==
    (IF bn = 0 THEN Fail(st, e, {EINVAL}) ELSE {}) \cup
    PathOp(st, e, fd, p, n, {}, Ptr(bp, bn, 1) \cup Ptr(retp, 4, 4), << <<bp, bn>>, <<retp, 4>> >>, LAMBDA ee :
        LET w == Resolve(st, BaseOf(st, fd), Rd(e, p, n), FALSE)
        IN  CASE w.k = "out" -> {LOOSE}
              [] w.k = "err" -> Fail(st, ee, w.e)
              [] w.k = "dot" -> Fail(st, ee, {EINVAL})
              [] w.i = 0 -> Fail(st, ee, {ENOENT})
              [] st.ino[w.i].k # "l" -> Fail(st, ee, {EINVAL} \cup (IF w.sl /\ st.ino[w.i].k = "f" THEN {ENOTDIR} ELSE {}))
              [] bn = 0 -> Fail(st, ee, {EINVAL}) \cup Ok(st, ee, << <<retp, Bytes4(0)>> >>)
              [] OTHER -> LET b == From(st.ino[w.i].c, 0, bn)
                          IN  IF ee = e THEN Ok(st, ee, << <<bp, b>>, <<retp, Bytes4(Len(b))>> >>) ELSE {st})

PathFilestatGet(st, e, fd, fl, p, n, sp) ==
    PathOp(st, e, fd, p, n, {}, Ptr(sp, StatLen(e), 8), << <<sp, StatLen(e)>> >>, LAMBDA ee :
        LET w == Resolve(st, BaseOf(st, fd), Rd(e, p, n), Bit(fl, 0))
        IN  CASE w.k = "out" -> {LOOSE}
              [] w.k = "err" -> Fail(st, ee, w.e)
              [] w.i = 0 -> Fail(st, ee, {ENOENT})
              [] w.k = "ent" /\ w.sl /\ st.ino[w.i].k # "d" -> Fail(st, ee, {ENOTDIR})
              [] OTHER -> IF ee = e THEN StatNode(st, ee, w.i, sp) ELSE {st})

PathSetTimes(st, e, fd, fl, p, n, a8, m8, ff) ==
    PathOp(st, e, fd, p, n, IF BadFst(ff) THEN {EINVAL, ENOTSUP} ELSE {}, {}, <<>>, LAMBDA ee :
        LET w == Resolve(st, BaseOf(st, fd), Rd(e, p, n), Bit(fl, 0))
            sup == IF ff \in {5, 10} THEN {} ELSE {ENOTSUP}
        IN  CASE w.k = "out" -> {LOOSE}
              [] w.k = "err" -> Fail(st, ee, w.e \cup sup)
              [] w.i = 0 -> Fail(st, ee, {ENOENT} \cup sup)
              [] w.k = "ent" /\ w.sl /\ st.ino[w.i].k # "d" -> Fail(st, ee, {ENOTDIR} \cup sup)
              [] OTHER -> SetTimes(st, ee, w.i, a8, m8, ff))

(* opening: oflags 1 create 2 directory 4 exclusive 8 truncate *)
PathOpen(st, e, fd, lf, p, n, of, rb, ff, retp) ==
    LET b == Rd(e, p, n)
        dirw == Bit(of, 1) /\ Bit(rb[1], 6)
        errs == PathErrs(st, e, fd, p, n) \cup (IF dirw THEN {EISDIR} ELSE {})
        traps == PathTraps(p, n) \cup Ptr(retp, 4, 4)
        creat == Bit(of, 0)
        isdir == Bit(of, 1)
        excl == Bit(of, 2)
        trunc == Bit(of, 3)
        rd == Bit(rb[1], 1)
        wr == Bit(rb[1], 6)
        new == IF e.t = -1 THEN U32(PRd(e, retp, 4)) ELSE 0
        nfd(i, k) == [Fd(k, i) EXCEPT !.rd = rd \/ ~wr, !.wr = wr, !.ap = Bit(ff, 0), !.nb = Bit(ff, 2),
                                      !.hp = IF k = "dir" THEN JoinPath(D(st, fd).hp, b) ELSE <<>>]
        opened(s2, i, k) ==
            IF traps # {} THEN {LOOSE}      \* a descriptor nobody was told of
            ELSE IF e.t = -1 /\ e.r = 0 /\ ~IsOpen(st, new)
            THEN Ok(SetFd(s2, new, nfd(i, k)), e, << <<retp, Bytes4(new)>> >>)
            ELSE {}
        w == Resolve(st, BaseOf(st, fd), b, Bit(lf, 0) /\ ~(creat /\ excl))
        create == IF creat /\ isdir THEN Fail(st, e, {EINVAL, EISDIR, ENOENT, ENOTDIR})
                  ELSE IF w.sl THEN Fail(st, e, {EISDIR, ENOENT, ENOTDIR, EINVAL})
                  ELSE opened(Bind(NewNode(st, File(<<>>)), w.par, w.nm, st.nx), st.nx, "file")
        op == CASE w.k = "out" -> {LOOSE}
                [] w.k = "err" -> Fail(st, e, w.e \cup (IF creat /\ isdir THEN {EINVAL} ELSE {})
                                              \cup (IF creat /\ (w.e = {ELOOP} \/ EndsSlash(b)) THEN {EISDIR} ELSE {}))
                [] w.k = "dot" \/ (w.i # 0 /\ st.ino[w.i].k = "d") ->
                      (IF creat /\ isdir THEN Fail(st, e, {EINVAL, EISDIR} \cup (IF excl THEN {EEXIST} ELSE {}))
                       ELSE IF creat THEN Fail(st, e, {EISDIR} \cup (IF excl THEN {EEXIST} ELSE {}))
                       ELSE IF wr \/ trunc THEN Fail(st, e, {EISDIR})
                       ELSE opened(st, w.i, "dir"))
                [] w.i = 0 -> IF creat THEN create
                              ELSE Fail(st, e, {ENOENT})
                [] creat /\ excl -> Fail(st, e, {EEXIST} \cup (IF isdir THEN {EINVAL, ENOTDIR} ELSE {})
                                                \cup (IF w.sl THEN {ENOTDIR, EISDIR} ELSE {}))
                [] st.ino[w.i].k = "l" -> Fail(st, e, {ELOOP} \cup (IF isdir THEN {ENOTDIR} ELSE {})
                                                      \cup (IF isdir /\ creat THEN {EINVAL} ELSE {}))
                [] w.sl \/ isdir -> Fail(st, e, {ENOTDIR} \cup (IF creat THEN {EINVAL, EISDIR} ELSE {}))
                [] trunc -> opened(SetNode(st, w.i, Touched([st.ino[w.i] EXCEPT !.c = <<>>])), w.i, "file")
                            \cup (IF wr THEN {} ELSE opened(st, w.i, "file") \cup Fail(st, e, {EINVAL, EACCES}))
                [] OTHER -> opened(st, w.i, "file")
    IN  IF errs # {} THEN Fail(st, e, errs) \cup Trap({st}, e, traps, << <<retp, 4>> >>)
        ELSE IF PathTraps(p, n) # {} THEN Trap({st}, e, traps, << <<retp, 4>> >>)
        ELSE IF Stale(st, D(st, fd)) THEN {LOOSE}
        ELSE IF e.t # -1 THEN Trap({LOOSE}, e, traps, << <<retp, 4>> >>)
        ELSE op \cup LongFail(st, e, n)

(* two paths *)
TwoOp(st, e, f1, p1, n1, f2, p2, n2, xerrs, op) ==
    LET errs == PathErrs(st, e, f1, p1, n1) \cup PathErrs(st, e, f2, p2, n2) \cup xerrs
        traps == PathTraps(p1, n1) \cup PathTraps(p2, n2)
    IN  IF errs # {} \/ traps # {} THEN Fail(st, e, errs) \cup Trap({st}, e, traps, <<>>)
        ELSE IF Stale(st, D(st, f1)) \/ Stale(st, D(st, f2)) THEN {LOOSE}
        ELSE op \cup LongFail(st, e, n1) \cup LongFail(st, e, n2)

Rename(st, e, f1, p1, n1, f2, p2, n2) ==
    LET b1 == Rd(e, p1, n1)
        b2 == Rd(e, p2, n2)
        w1 == Walk(st, BaseOf(st, f1), Split(b1), 0, FALSE, FALSE)
        w2 == Walk(st, BaseOf(st, f2), Split(b2), 0, FALSE, FALSE)
        sl == EndsSlash(b1) \/ EndsSlash(b2)
        n == st.ino[w1.i]
        t == st.ino[w2.i]
        move == LET s1 == Unbind(st, w1.par, w1.nm)
                    s2 == Bind(s1, w2.par, w2.nm, w1.i)
                    s3 == IF w2.i # 0 /\ st.ino[w2.i].k = "d" THEN Drop(s2, w2.i) ELSE s2
                IN  IF st.ino[w1.i].k = "d" THEN [s3 EXCEPT !.ino[w1.i].p = w2.par] ELSE s3
    IN  TwoOp(st, e, f1, p1, n1, f2, p2, n2, {},
            CASE w1.k = "out" \/ w2.k = "out" -> {LOOSE}
              [] w1.k = "err" \/ w2.k = "err" ->
                     Fail(st, e, w1.e \cup w2.e \cup (IF w1.k = "dot" \/ w2.k = "dot" THEN {EBUSY, EINVAL} ELSE {})
                                 \cup (IF w1.k = "ent" /\ w1.i = 0 THEN {ENOENT} ELSE {}))
              [] w1.k = "dot" \/ w2.k = "dot" -> Fail(st, e, {EBUSY, EINVAL, ENOTEMPTY, EEXIST, EISDIR, ENOENT, ENOTDIR})
              [] w1.i = 0 -> Fail(st, e, {ENOENT})
              [] sl /\ n.k # "d" -> Fail(st, e, {ENOTDIR, ENOENT, EISDIR} \cup (IF w2.i # 0 THEN {EEXIST} ELSE {}))
              [] w1.i = w2.i -> Ok(st, e, <<>>)
              [] n.k = "d" /\ Under(st, w2.par, w1.i) -> Fail(st, e, {EINVAL})
              [] w2.i # 0 /\ t.k = "d" /\ Under(st, w1.par, w2.i) ->
                     Fail(st, e, {ENOTEMPTY, EEXIST} \cup (IF n.k = "d" THEN {} ELSE {EISDIR}))
              [] w2.i = 0 -> Ok(move, e, <<>>)
              [] n.k = "d" /\ t.k # "d" -> Fail(st, e, {ENOTDIR})
              [] n.k # "d" /\ t.k = "d" -> Fail(st, e, {EISDIR, EEXIST})
              [] n.k = "d" /\ DOMAIN t.e # {} -> Fail(st, e, {ENOTEMPTY, EEXIST})
              [] OTHER -> Ok(move, e, <<>>))

PathLink(st, e, f1, lf, p1, n1, f2, p2, n2) ==
    LET b1 == Rd(e, p1, n1)
        b2 == Rd(e, p2, n2)
        w1 == Resolve(st, BaseOf(st, f1), b1, Bit(lf, 0))
        w2 == Walk(st, BaseOf(st, f2), Split(b2), 0, FALSE, FALSE)
        \* links without following need not be supported
        sup == IF Bit(lf, 0) THEN {} ELSE {ENOTSUP, EINVAL}
    IN  TwoOp(st, e, f1, p1, n1, f2, p2, n2, {},
            CASE w1.k = "out" \/ w2.k = "out" -> {LOOSE}
              [] w1.k = "err" \/ w2.k = "err" ->
                     Fail(st, e, w1.e \cup w2.e \cup sup
                                 \cup (IF w1.k = "ent" /\ w1.i = 0 THEN {ENOENT} ELSE {})
                                 \cup (IF w1.i # 0 /\ st.ino[w1.i].k = "d" THEN {EPERM} ELSE {})
                                 \cup (IF w1.i # 0 /\ w1.sl /\ st.ino[w1.i].k # "d" THEN {ENOTDIR} ELSE {})
                                 \cup (IF w2.k = "dot" \/ w2.i # 0 THEN {EEXIST} ELSE {}))
              [] w1.i = 0 -> Fail(st, e, {ENOENT} \cup sup)
              [] w1.k = "ent" /\ w1.sl /\ st.ino[w1.i].k # "d" -> Fail(st, e, {ENOTDIR} \cup sup \cup {EEXIST})
              [] w1.k = "dot" \/ st.ino[w1.i].k = "d" ->
                     Fail(st, e, {EPERM} \cup sup \cup (IF w2.k = "dot" \/ w2.i # 0 THEN {EEXIST} ELSE {})
                                 \cup (IF EndsSlash(b2) THEN {ENOENT, ENOTDIR} ELSE {}))
              [] w2.k = "dot" \/ w2.i # 0 -> Fail(st, e, {EEXIST} \cup sup \cup (IF EndsSlash(b2) THEN {ENOTDIR, ENOENT} ELSE {}))
              [] EndsSlash(b2) -> Fail(st, e, {ENOENT, ENOTDIR, EEXIST} \cup sup)
              [] OTHER -> Ok(Bind(st, w2.par, w2.nm, w1.i), e, <<>>) \cup Fail(st, e, sup))
         \cup (IF Bit(lf, 0) THEN {} ELSE Fail(st, e, {ENOTSUP}))

(***************************************************************************)
(* Process: arguments, environment, clocks, random numbers, exit           *)
(***************************************************************************)
StrSize(ss) == FoldLeft(LAMBDA n, x : n + Len(x) + 1, 0, ss)
SizesGet(st, e, ss, cp, sp) ==
    LET traps == Ptr(cp, 4, 4) \cup Ptr(sp, 4, 4)
    IN  IF traps # {} THEN Trap({st}, e, traps, << <<cp, 4>>, <<sp, 4>> >>)
        ELSE Ok(st, e, << <<cp, Bytes4(Len(ss))>>, <<sp, Bytes4(StrSize(ss))>> >>)

StringsGet(st, e, ss, vp, bp) ==
    LET n == Len(ss)
        traps == Ptr(vp, 4 * n, 4) \cup Ptr(bp, StrSize(ss), 1)
        offs == FoldLeft(LAMBDA acc, x : Append(acc, acc[Len(acc)] + Len(x) + 1), <<0>>, ss)
        buf == FoldLeft(LAMBDA acc, x : acc \o x \o <<0>>, <<>>, ss)
        vec == FoldLeft(LAMBDA acc, i : acc \o Bytes4(bp + offs[i]), <<>>, [i \in 1..n |-> i])
    IN  IF traps # {} THEN
            Trap({st}, e, traps, << <<vp, 4 * n>>, <<bp, StrSize(ss)>> >>)
            \* nothing to store
            \cup (IF n = 0 THEN Ok(st, e, <<>>) ELSE {})
        ELSE Ok(st, e, << <<bp, buf>>, <<vp, vec>> >>)

\* the four clocks as the host saw them before (lo) and after (hi) the call
ClockTime(st, e, id, retp) ==
    LET traps == Ptr(retp, 8, 8)
        v == PRd(e, retp, 8)
    IN  IF id > 3 THEN Fail(st, e, {EINVAL, ENOTSUP}) \cup Trap({st}, e, traps, << <<retp, 8>> >>)
        ELSE IF traps # {} THEN Trap({st}, e, traps, << <<retp, 8>> >>)
        ELSE IF LeU(e.lo[id + 1], v) /\ LeU(v, e.hi[id + 1]) THEN Ok(st, e, << <<retp, Whatever(8)>> >>) ELSE {}
ClockRes(st, e, id, retp) ==
    LET traps == Ptr(retp, 8, 8)
    IN  IF id > 3 THEN Fail(st, e, {EINVAL, ENOTSUP}) \cup Trap({st}, e, traps, << <<retp, 8>> >>)
        ELSE IF traps # {} THEN Trap({st}, e, traps, << <<retp, 8>> >>)
        ELSE Ok(st, e, << <<retp, e.res[id + 1]>> >>)

\* every run of 12 bytes got at least one new byte (or 256^-12 happened)
Random(st, e, p, n) ==
    IF ~InMem(p, n) THEN Trap({st}, e, {TRAP_OOB}, << <<p, n>> >>)
    ELSE IF \A o \in {x \in 0..Greater(n - 12, 0) : (x % 12 = 0 \/ x = n - 12) /\ x + 12 <= n} :
                \E k \in 0..11 : Covers(e.g, p + o + k)
         THEN Ok(st, e, << <<p, Whatever(n)>> >>)
         ELSE {}

Exit(st, e, code) == IF e.t = TRAP_EXIT /\ e.x = code /\ e.g = <<>> THEN {st} ELSE {}
Yield(st, e) == Ok(st, e, <<>>)

(***************************************************************************)
(* Waiting                                                                 *)
(***************************************************************************)
\* subscription i at p: 48 bytes
SubAt(e, p, i) == LET b == Rd(e, p + 48 * i, 48)
                  IN  [ud |-> SubSeq(b, 1, 8), ty |-> b[9], fd |-> U32(SubSeq(b, 17, 20)),
                       id |-> U32(SubSeq(b, 17, 20)), to |-> SubSeq(b, 25, 32), fl |-> b[41]]
IsClock(s) == s.ty = 0
IsBad(st, s) == s.ty \in {1, 2} /\ D(st, s.fd).k \in {"none", "pre"}
IsReady(st, s) ==
    s.ty \in {1, 2} /\
    LET d == D(st, s.fd)
    IN  CASE d.k \in {"file", "nul", "dir"} -> TRUE
          [] d.k = "lst" -> s.ty = 1 /\ st.str[d.i].q # <<>>
          [] IsStream(d) -> IF s.ty = 1 THEN d.rd /\ (S(st, s.fd).q # <<>> \/ S(st, s.fd).eof)
                            ELSE d.wr
          [] OTHER -> FALSE
\* readiness the host may or may not report
Maybe(st, s) ==
    s.ty \in {1, 2} /\
    LET d == D(st, s.fd)
    IN  CASE d.k = "lst" -> s.ty = 2 \/ st.str[d.i].q # <<>>
          [] IsStream(d) -> (s.ty = 2 /\ (~d.wr \/ S(st, s.fd).brk))
                            \/ (s.ty = 1 /\ (~d.rd \/ S(st, s.fd).brk \/ S(st, s.fd).pc))
          [] OTHER -> FALSE
Hung(st, s) == LET d == D(st, s.fd) IN IsStream(d) /\ (S(st, s.fd).eof \/ S(st, s.fd).brk \/ S(st, s.fd).pc)

EvAt(e, p, i) == LET b == PRd(e, p + 32 * i, 32)
                 IN  [ud |-> SubSeq(b, 1, 8), er |-> b[9] + 256 * b[10], ty |-> b[11]]

\* the clock reached its time: relative ones by the measured duration
Expired(e, s) ==
    IF Bit(s.fl, 0) THEN LeU(s.to, e.hi[s.id + 1])
    ELSE LET us == e.ns IN LeU(s.to, us)
\* certainly in the past when the call began
Over(e, s) == IF Bit(s.fl, 0) THEN LeU(s.to, e.lo[s.id + 1]) ELSE s.to = Zeros(8)

Poll(st, e, ip, op, n, retp) ==
    LET traps == Ptr(retp, 4, 4) \cup Ptr(ip, 48 * Lesser(n, MEM), 8) \cup Ptr(op, 32 * Lesser(n, MEM), 8)
        areas == << <<op, 32 * Lesser(n, MEM)>>, <<retp, 4>> >>
    IN  IF n = 0 THEN Fail(st, e, {EINVAL}) \cup Trap({st}, e, traps, areas)
                      \cup Ok(st, e, << <<retp, Bytes4(0)>> >>)
        ELSE IF traps # {} THEN
             Trap({st}, e, traps, areas)
             \cup (IF n > MEM THEN Fail(st, e, {EOVERFLOW, ENOMEM, EINVAL}) ELSE {})
             \* an unusable subscription may be noticed first
             \cup (IF Ptr(ip, 48 * Lesser(n, MEM), 8) = {}
                   THEN Fail(st, e, {EINVAL, ENOTSUP}) ELSE {})
        ELSE
        LET ss == TLCEval([i \in 1..n |-> SubAt(e, ip, i - 1)])
            clocks == {i \in 1..n : IsClock(ss[i])}
            errs == (IF \E i \in 1..n : ss[i].ty > 2 THEN {EINVAL} ELSE {})
                    \cup (IF \E i \in clocks : ss[i].id > 1 THEN {EINVAL, ENOTSUP} ELSE {})
                    \cup (IF Cardinality(clocks) > 1 THEN {ENOTSUP} ELSE {})
            bad == {i \in 1..n : IsBad(st, ss[i])}
            ready == {i \in 1..n : IsReady(st, ss[i])}
            maybe == {i \in 1..n : Maybe(st, ss[i])}
            over == {i \in clocks : Over(e, ss[i])}
            got == U32(PRd(e, retp, 4))
            evs == TLCEval([i \in 1..Lesser(got, n) |-> EvAt(e, op, i - 1)])
            \* which subscription an event belongs to (user data are distinct)
            who(v) == {i \in 1..n : ss[i].ud = v.ud /\ ss[i].ty = v.ty}
            S1 == UNION {who(evs[i]) : i \in DOMAIN evs}
            errOk(v) == LET i == CHOOSE x \in who(v) : TRUE
                        IN  IF i \in bad THEN v.er = EBADF
                            ELSE IF i \in clocks THEN v.er = 0
                            ELSE v.er = 0 \/ (Hung(st, ss[i]) /\ v.er \in {EPIPE, 29})
                                 \/ (i \in maybe /\ v.er \in {EPIPE, 29})
        IN  IF errs # {} THEN Fail(st, e, errs)
            ELSE IF ~(e.t = -1 /\ e.r = 0 /\ got \in 1..n /\ Within(e, areas)) THEN {}
            ELSE IF /\ \A i \in DOMAIN evs : who(evs[i]) # {} /\ errOk(evs[i])
                    /\ Cardinality(S1) = got
                    /\ S1 \subseteq bad \cup ready \cup maybe \cup clocks
                    /\ bad \subseteq S1
                    /\ (bad = {} => ready \subseteq S1)
                    /\ \A i \in S1 \cap clocks : Expired(e, ss[i])
                 THEN {st} ELSE {}

(***************************************************************************)
(* Sockets                                                                 *)
(***************************************************************************)
SockErrs(st, fd) == CASE D(st, fd).k \in {"none", "pre"} -> {EBADF}
                      [] D(st, fd).k \notin {"sock", "lst"} -> {ENOTSOCK}
                      [] OTHER -> {}

SockRecv(st, e, fd, p, n, fl, retp, rop) ==
    LET errs == SockErrs(st, fd) \cup (IF fl > 3 THEN {EINVAL} ELSE IF Bit(fl, 1) THEN {ENOTSUP} ELSE {})
        traps == IovTraps(e, p, n) \cup Ptr(retp, 4, 4) \cup Ptr(rop, 2, 2)
        outs == (IF IovTraps(e, p, n) = {} THEN Iovs(e, p, n) ELSE <<>>) \o << <<retp, 4>>, <<rop, 2>> >>
        \* as a read whose outputs include the flags
        v == IF IovTraps(e, p, n) = {} THEN Iovs(e, p, n) ELSE <<>>
    IN  IF errs \cup IovErrs(n) # {} THEN Fail(st, e, errs \cup IovErrs(n)) \cup Trap({st}, e, traps, outs)
                                         \cup (IF n = 0 /\ errs = {} THEN Ok(st, e, << <<retp, Bytes4(0)>>, <<rop, <<0, 0>> >> >>) ELSE {})
        ELSE IF D(st, fd).k = "lst" THEN Fail(st, e, {EINVAL, ENOTCONN}) \cup Trap({st}, e, traps, outs)
        ELSE LET s == S(st, fd)
                 b == From(s.q, 0, Total(v))
                 st2 == IF Bit(fl, 0) THEN st ELSE SetS(st, fd, [s EXCEPT !.q = SubSeq(@, Len(b) + 1, Len(@))])
                 nothing == s.q = <<>> /\ Total(v) > 0
             IN  IF traps # {} THEN Trap({st, st2}, e, traps, outs)
                                    \cup (IF s.q = <<>> /\ ~s.eof /\ D(st, fd).nb THEN Fail(st, e, {EAGAIN}) ELSE {})
                                    \cup (IF s.q = <<>> /\ s.rst
                                          THEN Fail(SetS(st, fd, [s EXCEPT !.rst = FALSE]), e, {ECONNRESET}) ELSE {})
                 ELSE IF nothing /\ ~s.eof THEN (IF D(st, fd).nb THEN Fail(st, e, {EAGAIN}) ELSE {})
                 ELSE Ok(st2, e, Scatter(v, b) \o << <<retp, Bytes4(Len(b))>>, <<rop, <<0, 0>> >> >>)
                      \cup (IF s.rst /\ s.q = <<>> THEN Fail(SetS(st, fd, [s EXCEPT !.rst = FALSE]), e, {ECONNRESET}) ELSE {})
                      \cup (IF Total(v) = 0 /\ s.q = <<>> THEN Fail(st, e, {EAGAIN}) ELSE {})

SockSend(st, e, fd, p, n, fl, retp) ==
    LET errs == SockErrs(st, fd) \cup (IF fl # 0 THEN {EINVAL} ELSE {})
    IN  IF errs # {} THEN Fail(st, e, errs \cup IovErrs(n))
                          \cup Trap({st}, e, IovTraps(e, p, n) \cup Ptr(retp, 4, 4), << <<retp, 4>> >>)
        ELSE FdWrite(st, e, fd, p, n, retp)

SockShutdown(st, e, fd, how) ==
    LET errs == SockErrs(st, fd) \cup (IF how \notin 1..3 THEN {EINVAL} ELSE {})
    IN  IF errs # {} THEN Fail(st, e, errs)
        ELSE IF D(st, fd).k = "lst" THEN Fail(st, e, {ENOTCONN}) \cup (IF e.t = -1 /\ e.r = 0 THEN {LOOSE} ELSE {})
        ELSE Ok(SetS(st, fd, [S(st, fd) EXCEPT !.eof = @ \/ Bit(how, 0), !.brk = @ \/ Bit(how, 1)]), e, <<>>)
             \cup (IF S(st, fd).pc THEN Fail(st, e, {ENOTCONN}) ELSE {})

\* a listening socket's q holds the numbers of the streams that wait
SockAccept(st, e, fd, fl, retp) ==
    LET d == D(st, fd)
        errs == SockErrs(st, fd) \cup (IF fl \in {0, 4} THEN {} ELSE {ENOTSUP, EINVAL})
                \cup (IF d.k = "sock" THEN {EINVAL} ELSE {})
        traps == Ptr(retp, 4, 4)
        new == IF e.t = -1 THEN U32(PRd(e, retp, 4)) ELSE 0
    IN  IF errs # {} THEN Fail(st, e, errs) \cup Trap({st}, e, traps, << <<retp, 4>> >>)
        ELSE IF S(st, fd).q = <<>> THEN (IF d.nb THEN Fail(st, e, {EAGAIN}) \cup Trap({st}, e, traps, <<>>) ELSE {})
        ELSE IF traps # {} THEN Trap({LOOSE}, e, traps, << <<retp, 4>> >>)
        ELSE IF e.t = -1 /\ e.r = 0 /\ ~IsOpen(st, new)
             THEN Ok(SetFd(SetS(st, fd, [S(st, fd) EXCEPT !.q = Tail(@)]), new,
                           [Fd("sock", Head(S(st, fd).q)) EXCEPT !.nb = Bit(fl, 2)]),
                     e, << <<retp, Bytes4(new)>> >>)
             ELSE {}

(***************************************************************************)
(* The other end of a stream, played by the host: i is the stream          *)
(***************************************************************************)
Peer(st, e) ==
    LET i == e.i
        s == st.str[i]
        set(x) == {[st EXCEPT !.str[i] = x]}
        held == \E f \in DOMAIN st.fd :
                    \/ st.fd[f].k \in {"pipe", "sock", "lst"} /\ st.fd[f].i = i
                    \/ st.fd[f].k = "lst" /\ i \in ToSet(st.str[st.fd[f].i].q)
    IN  CASE e.op = "w" -> IF e.e = 0 /\ e.n = Len(e.b)
                           THEN set([s EXCEPT !.q = IF s.eof \/ ~held THEN @ ELSE @ \o e.b])
                           ELSE IF ~held \/ s.eof THEN {st} ELSE {}
          \* the peer gets what was written, in order
          [] e.op = "r" -> IF e.e = 0 THEN (IF e.n <= Len(s.o) /\ e.b = SubSeq(s.o, 1, e.n)
                                               /\ (e.n = 0 => s.o = <<>>) /\ (e.n < e.k => e.n = Len(s.o))
                                            THEN set([s EXCEPT !.o = SubSeq(@, e.n + 1, Len(@))]) ELSE {})
                           ELSE (IF s.o = <<>> THEN {st} ELSE {})
          \* what the guest can still read stays
          [] e.op = "c" -> set([s EXCEPT !.eof = TRUE, !.brk = TRUE, !.pc = TRUE, !.rst = s.o # <<>>])
          [] e.op = "s" -> set([s EXCEPT !.eof = @ \/ e.k = 1, !.brk = @ \/ e.k = 0])
          [] e.op = "n" -> {[st EXCEPT !.str = (e.k :> Stream) @@ [@ EXCEPT ![i].q = Append(@, e.k)]]}

(***************************************************************************)
(* The host looks at the tree                                              *)
(***************************************************************************)
RECURSIVE Listing(_, _, _)
Listing(st, d, pre) ==
    UNION {LET i == st.ino[d].e[nm]
               p == IF pre = <<>> THEN nm ELSE pre \o <<SLASH>> \o nm
           IN  {[p |-> p, k |-> st.ino[i].k, n |-> Len(st.ino[i].c), c |-> st.ino[i].c]}
               \cup (IF st.ino[i].k = "d" THEN Listing(st, i, p) ELSE {})
           : nm \in DOMAIN st.ino[d].e}

Tree(st, e) == IF {e.tree[i] : i \in DOMAIN e.tree} = Listing(st, st.root, <<>>) THEN {st} ELSE {}

End(st, e) == IF e.open = 0 /\ e.mem = 0 THEN {st} ELSE {}

(***************************************************************************)
Call(st, e) ==
    LET a == e.a
        c == e.c
    IN  CASE c = "fd_read" -> FdRead(st, e, a[1], a[2], a[3], a[4], FALSE)
          [] c = "fd_write" -> FdWrite(st, e, a[1], a[2], a[3], a[4])
          [] c = "fd_pread" -> FdPread(st, e, a[1], a[2], a[3], a[4], a[5])
          [] c = "fd_pwrite" -> FdPwrite(st, e, a[1], a[2], a[3], a[4], a[5])
          [] c = "fd_seek" -> FdSeek(st, e, a[1], a[2], a[3], a[4])
          [] c = "fd_tell" -> FdTell(st, e, a[1], a[2])
          [] c = "fd_filestat_get" -> FdFilestatGet(st, e, a[1], a[2])
          [] c = "fd_filestat_set_size" -> FdSetSize(st, e, a[1], a[2])
          [] c = "fd_filestat_set_times" -> FdSetTimes(st, e, a[1], a[2], a[3], a[4])
          [] c = "fd_allocate" -> FdAllocate(st, e, a[1], a[2], a[3])
          [] c \in {"fd_sync", "fd_datasync"} -> FdSync(st, e, a[1])
          [] c = "fd_advise" -> FdAdvise(st, e, a[1], a[2], a[3], a[4])
          [] c = "fd_close" -> FdClose(st, e, a[1])
          [] c = "fd_renumber" -> FdRenumber(st, e, a[1], a[2])
          [] c = "fd_fdstat_get" -> FdFdstatGet(st, e, a[1], a[2])
          [] c = "fd_fdstat_set_flags" -> FdSetFlags(st, e, a[1], a[2])
          [] c = "fd_fdstat_set_rights" -> FdSetRights(st, e, a[1])
          [] c = "fd_readdir" -> FdReaddir(st, e, a[1], a[2], a[3], a[4], a[5])
          [] c = "fd_prestat_get" -> PrestatGet(st, e, a[1], a[2])
          [] c = "fd_prestat_dir_name" -> PrestatName(st, e, a[1], a[2], a[3])
          [] c = "path_create_directory" -> Mkdir(st, e, a[1], a[2], a[3])
          [] c = "path_remove_directory" -> Rmdir(st, e, a[1], a[2], a[3])
          [] c = "path_unlink_file" -> Unlink(st, e, a[1], a[2], a[3])
          [] c = "path_symlink" -> Symlink(st, e, a[1], a[2], a[3], a[4], a[5])
          [] c = "path_readlink" -> Readlink(st, e, a[1], a[2], a[3], a[4], a[5], a[6])
          [] c = "path_filestat_get" -> PathFilestatGet(st, e, a[1], a[2], a[3], a[4], a[5])
          [] c = "path_filestat_set_times" -> PathSetTimes(st, e, a[1], a[2], a[3], a[4], a[5], a[6], a[7])
          [] c = "path_open" -> PathOpen(st, e, a[1], a[2], a[3], a[4], a[5], a[6], a[8], a[9])
          [] c = "path_rename" -> Rename(st, e, a[1], a[2], a[3], a[4], a[5], a[6])
          [] c = "path_link" -> PathLink(st, e, a[1], a[2], a[3], a[4], a[5], a[6], a[7])
          [] c = "args_sizes_get" -> SizesGet(st, e, st.args, a[1], a[2])
          [] c = "environ_sizes_get" -> SizesGet(st, e, st.envs, a[1], a[2])
          [] c = "args_get" -> StringsGet(st, e, st.args, a[1], a[2])
          [] c = "environ_get" -> StringsGet(st, e, st.envs, a[1], a[2])
          [] c = "clock_time_get" -> ClockTime(st, e, a[1], a[3])
          [] c = "clock_res_get" -> ClockRes(st, e, a[1], a[2])
          [] c = "random_get" -> Random(st, e, a[1], a[2])
          [] c = "proc_exit" -> Exit(st, e, e.code)
          [] c = "sched_yield" -> Yield(st, e)
          [] c = "poll_oneoff" -> Poll(st, e, a[1], a[2], a[3], a[4])
          [] c = "sock_recv" -> SockRecv(st, e, a[1], a[2], a[3], a[4], a[5], a[6])
          [] c = "sock_send" -> SockSend(st, e, a[1], a[2], a[3], a[4], a[5])
          [] c = "sock_shutdown" -> SockShutdown(st, e, a[1], a[2])
          [] c = "sock_accept" -> SockAccept(st, e, a[1], a[2], a[3])

Step(st, e) == CASE e.v = "call" -> Call(st, e)
                 [] e.v = "peer" -> Peer(st, e)
                 [] e.v = "tree" -> Tree(st, e)
                 [] e.v = "end" -> End(st, e)
=============================================================================
