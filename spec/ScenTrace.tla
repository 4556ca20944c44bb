------------------------------ MODULE ScenTrace ------------------------------
(***************************************************************************)
(* Conformance of recorded scenarios.  A scenario is a script of commands   *)
(* for the driver (load, instantiate, call, dump, write, ...) and the       *)
(* sequence of events the implementation produced.  The specification runs  *)
(* the same script on the abstract machine; each event it says must happen  *)
(* is compared with the next recorded one.  Every trace is one behaviour    *)
(* of this module and either ends in phase "done" or reaches "bad".         *)
(*                                                                          *)
(* File MODS: one module per line, {b: bytes}; file TRACE: one scenario per *)
(* line, {h: hosts, n: slots, nm: module slots, mf, mc, fault: 0/1,         *)
(* gf: growths the host refuses, s: script, v: events}.                     *)
(***************************************************************************)
EXTENDS Exec, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
ModFile == ndJsonDeserialize(IOEnv.MODS)
\* evaluated once (a definition would be evaluated at every use)
ASSUME TLCSet(2, FoldLeft(LAMBDA a, x : Append(a, Check(x.b)), <<>>, ModFile))

VARIABLES t,     \* index of the trace
          k,     \* next command
          l,     \* next recorded event
          ms,    \* module id by module slot (0: none)
          S,     \* the machine
          ph     \* "idle", "run", "loose", "done", "bad"
vars == <<t, k, l, ms, S, ph>>

T == Trace[t]
Cmd == T.s[k]
E == T.v[l]
HasE == l <= Len(T.v)

Init == /\ t \in DOMAIN Trace
        /\ k = 1 /\ l = 1 /\ ph = "idle"
        /\ ms = RepSeq(0, T.nm)
        /\ S = Machine0(T.h, T.n, T.mf, T.mc, T.gf)

(**************************** starting a command ***************************)
ArgVal(a) == IF a[1] = FuncRef THEN (IF a[2] = <<>> THEN <<>> ELSE <<S.insts[a[2][1] + 1].fa[a[2][2] + 1]>>)
             ELSE a[2]
FindExport(I, name) ==
    FoldLeft(LAMBDA r, x : IF x.n = name /\ x.k = 0 THEN x.i ELSE r, -1, ModTab[I.m].m.exports)
Skip == Say(S, Ev("skip"))
InstOk(i) == S.insts[i + 1].ok
NonZero(m) == { q \in DOMAIN m.ch : q < 524288 /\ ~IsZero(m.ch[q]) }
DoM == IF ModTab[Cmd.m].ok THEN Say(S, Ev("load")) ELSE Say(S, [Ev("load") EXCEPT !.ok = 0])
DoI == IF ms[Cmd.m + 1] = 0 \/ \E j \in DOMAIN Cmd.im : Cmd.im[j].h = 0 /\ ~InstOk(Cmd.im[j].i)
       THEN Skip
       ELSE LET Q == Instantiate(S, Cmd.i + 1, ms[Cmd.m + 1], Cmd.im) IN
            IF T.fault = 1 THEN [Q EXCEPT !.bk = <<[S EXCEPT !.bk = <<>>]>>] ELSE Q
DoC == IF ~InstOk(Cmd.i) THEN Skip
       ELSE LET I == S.insts[Cmd.i + 1]
                fi == IF Cmd.x >= 0 THEN Cmd.x ELSE FindExport(I, Cmd.n)
            IN IF fi = -1 THEN Say(S, [Ev("ret") EXCEPT !.r = "nofunc"])
               ELSE Invoke(S, I.fa[fi + 1], Map(Cmd.a, LAMBDA a : ArgVal(a)))
DoD == IF ~InstOk(Cmd.i) THEN Skip
       ELSE LET m == S.mems[S.insts[Cmd.i + 1].ma[Cmd.x + 1]] IN
            Say(S, [Ev("mem") EXCEPT !.p = m.pg, !.ch = { <<q, m.ch[q]>> : q \in NonZero(m) }])
DoG == IF ~InstOk(Cmd.i) THEN Skip
       ELSE LET g == S.globs[S.insts[Cmd.i + 1].ga[Cmd.x + 1]] IN
            Say(S, [Ev("glob") EXCEPT !.v = <<Show(S, g.t, g.v)>>])
DoT == IF ~InstOk(Cmd.i) THEN Skip
       ELSE LET x == S.tabs[S.insts[Cmd.i + 1].ta[Cmd.x + 1]] IN
            Say(S, [Ev("tab") EXCEPT !.p = FromNat(Len(x.e), 4),
                    !.v = FoldLeft(LAMBDA a, i : Append(a, Show(S, x.et, x.e[i])), <<>>,
                                   NatSeq(IF Len(x.e) < 256 THEN Len(x.e) ELSE 256))])
\* write module slot i out and load the result into slot x
DoW == IF ms[Cmd.i + 1] = 0 THEN Skip ELSE Say(Say(S, Ev("write")), Ev("load"))
Started == CASE Cmd.c = "M" -> DoM [] Cmd.c = "I" -> DoI [] Cmd.c \in {"C", "X"} -> DoC
             [] Cmd.c = "D" -> DoD [] Cmd.c = "G" -> DoG [] Cmd.c = "T" -> DoT
             [] Cmd.c = "W" -> DoW

(***************************** matching events *****************************)
\* no maximum means the same as the largest one
NormLim(x) == [x EXCEPT !.hasmax = TRUE]
NormTab(x) == [x EXCEPT !.lim = NormLim(x.lim)]
\* element indices as expressions
NormElem(x) == [x EXCEPT !.x = TRUE,
                         !.init = IF x.x THEN @ ELSE Map(@, LAMBDA i : <<<<210, i>>, <<11>>>>)]
\* no empty groups of locals, neighbours of the same type joined
NormLocals(ls) ==
    FoldLeft(LAMBDA a, c : IF c[1] = Zeros(4) THEN a
                           ELSE IF a # <<>> /\ a[Len(a)][2] = c[2]
                                THEN [a EXCEPT ![Len(a)] = <<Add(@[1], c[1]), c[2]>>]
                           ELSE Append(a, c), <<>>, ls)
\* the order of exports has no meaning
Norm(m) == [m EXCEPT !.dcount = 0, !.dylink = FALSE, !.exports = ToSet(@),
                     !.tables = Map(@, LAMBDA x : NormTab(x)), !.mems = Map(@, LAMBDA x : NormLim(x)),
                     !.elems = Map(@, LAMBDA x : NormElem(x)),
                     !.codes = Map(@, LAMBDA x : [x EXCEPT !.locals = NormLocals(@)]),
                     !.imports = Map(@, LAMBDA x : [x EXCEPT !.d = IF x.k = 1 THEN NormTab(x.d)
                                                               ELSE IF x.k = 2 THEN NormLim(x.d)
                                                               ELSE x.d])]
\* the written module (id in the event) means the same
SameModule(a, b) == ModTab[b].ok /\ Norm(ModTab[a].m) = Norm(ModTab[b].m)
Fits(o) ==
    /\ E.e = o.e
    /\ CASE o.e \in {"load", "link"} -> E.ok = o.ok
         [] o.e \in {"init", "ret"} ->
              /\ E.r = o.r
              /\ o.r \in {"trap", "err"} => E.t \in o.t
              /\ E.v = o.v /\ E.left = 0
         [] o.e = "host" -> E.f = o.f /\ E.v = o.v
         [] o.e = "copyin" -> E.b = o.b
         [] o.e = "mem" -> E.n = 0 /\ E.p = o.p /\ ToSet(E.ch) = o.ch
         [] o.e = "glob" -> E.v = o.v
         [] o.e = "tab" -> E.p = o.p /\ E.v = o.v
         [] o.e = "write" -> E.ok = 1 /\ SameModule(ms[Cmd.i + 1], E.wm)
         [] OTHER -> TRUE

NoMem == 12
\* deviations that are part of the contract
Failed(o) == T.fault = 1 /\ E.e = o.e /\
             IF o.e = "write" THEN E.ok = 0
             ELSE IF o.e = "mem" THEN E.n = NoMem /\ E.p = o.p
             ELSE o.e \in {"load", "link"} /\ E.ok = 0 /\ E.n = NoMem
Broken(o) == T.fault = 1 /\ o.e \in {"init", "ret", "host", "copyin", "copyout"}
             /\ E.e \in {"init", "ret"}
             /\ <<E.r, E.t>> \in {<<"err", NoMem>>, <<"trap", TrapUnreachable>>}
TooManyCells == S.mc >= 0 /\ E.e = S.be /\ E.r = "trap" /\ E.t = TrapCells /\ S.hi > S.mc
Abandoned == E.e = "abandon" /\ Cmd.c = "X"

\* after the last event of a command
After(o) == IF o.e = "load" /\ o.ok = 1 /\ E.ok = 1
            THEN (IF Cmd.c = "W" THEN [ms EXCEPT ![Cmd.x + 1] = ms[Cmd.i + 1]]
                  ELSE [ms EXCEPT ![Cmd.i + 1] = Cmd.m])
            ELSE ms

\* accounting of the root and its two children: <<>> if not recorded.
\* acct = <<live root, modules, instances, peak root, modules, instances>>
Accounted(e) == e.acct # <<>> =>
    /\ e.acct[1] = e.acct[2] + e.acct[3]
    /\ e.acct[4] <= e.acct[5] + e.acct[6]
    /\ T.fault = 0 => e.acct[4] >= e.acct[5] /\ e.acct[4] >= e.acct[6]
    /\ T.ml >= 0 => e.acct[4] <= T.ml
    /\ T.il >= 0 => e.acct[6] <= T.il
EndOk(e) == e.e = "end" /\ e.leak = <<0, 0, 0>> /\ Accounted(e)
EndFits == EndOk(E) /\ l = Len(T.v)

Start == /\ ph = "idle" /\ k <= Len(T.s)
         /\ S' = Started /\ ph' = "run"
         /\ UNCHANGED <<t, k, l, ms>>
Finish == /\ ph = "idle" /\ k > Len(T.s)
          /\ ph' = IF HasE /\ EndFits THEN "done" ELSE "bad"
          /\ UNCHANGED <<t, k, l, ms, S>>
Execute == /\ ph = "run" /\ S.out = <<>>
           /\ IF S.cur.k = "z" THEN ph' = "idle" /\ k' = k + 1 /\ S' = S
              ELSE ph' = "run" /\ k' = k /\ S' = Run(S)
           /\ UNCHANGED <<t, l, ms>>
Observe ==
    /\ ph = "run" /\ S.out # <<>>
    /\ UNCHANGED <<t, k>>
    /\ LET o == S.out[1] IN
       IF ~HasE THEN ph' = "bad" /\ UNCHANGED <<l, ms, S>>
       ELSE IF Fits(o) /\ ~TooManyCells
            THEN /\ l' = l + 1 /\ ph' = ph
                 /\ S' = [S EXCEPT !.out = Tail(@)]
                 /\ ms' = After(o)
       ELSE IF Failed(o)    \* allocation failure: nothing was created
            THEN /\ l' = l + 1 /\ ph' = ph /\ ms' = ms
                 /\ S' = IF o.e # "link" THEN [Stop(S) EXCEPT !.out = <<>>] ELSE S.bk[1]
       ELSE IF Broken(o) \/ TooManyCells \/ Abandoned
            THEN ph' = "loose" /\ l' = l + 1 /\ UNCHANGED <<ms, S>>
       ELSE ph' = "bad" /\ UNCHANGED <<l, ms, S>>
\* the machine state is no longer known: only the end counts
Loose == /\ ph = "loose"
         /\ ph' = IF EndOk(T.v[Len(T.v)]) THEN "done" ELSE "bad"
         /\ UNCHANGED <<t, k, l, ms, S>>

Next == Start \/ Finish \/ Execute \/ Observe \/ Loose
Spec == Init /\ [][Next]_vars

Conforms == ph # "bad"
Sound == WellFormed(S)
\* every trace was followed to its end
Count == IF ph = "done" THEN TLCSet(1, TLCGet(1) + 1) ELSE TRUE
ASSUME TLCSet(1, 0)
AllDone == PrintT(<<"finished", TLCGet(1)>>)
=============================================================================
