-------------------------------- MODULE MCConc --------------------------------
(***************************************************************************)
(* Every interleaving of small multi-threaded programs over Signals2.      *)
(*                                                                         *)
(* A program is a setup (executed by one thread), one sequence of          *)
(* operations per thread, and operations executed by a slot when it is     *)
(* called first, or by the destructor of its function.  The initial states *)
(* are all programs over a catalogue of operations; every program is also  *)
(* printed, and harness/conc.cpp runs it on the real library under many    *)
(* schedules, whose histories TraceSignals2 validates.                     *)
(***************************************************************************)
EXTENDS Signals2

CONSTANTS SetupName,       \* which setup
          Ops1, Ops2, Ops3, \* names of operations of the threads
          L1, L2, L3,      \* how many operations they perform
          InOps, DtOps,    \* what slot 1 does when called first / its function when destroyed ("" nothing)
          Emit

VARIABLES prog, todo, ph, nmap, used, g
mcvars == <<vars, prog, todo, ph, nmap, used, g>>

K(hd, nm, p, gr, fr, f, kind, gd, trk) ==
  [o |-> "connect", hd |-> hd, nm |-> nm, p |-> p, g |-> gr, fr |-> fr, f |-> f, kind |-> kind, gd |-> gd, trk |-> trk, flt |-> 0]
New(h) == [o |-> "new", hd |-> h, cb |-> 0, cmp |-> 0]
Setup ==
  CASE SetupName = "two" -> <<New(1), K(1, 1, 2, 0, 0, 1, "p", 0, <<>>), K(1, 2, 2, 0, 0, 2, "x", 0, <<>>)>>
    [] SetupName = "grp" -> <<New(1), K(1, 1, 1, 1, 0, 1, "p", 0, <<>>), K(1, 2, 1, 2, 0, 2, "p", 0, <<>>), K(1, 3, 1, 1, 1, 1, "x", 0, <<>>)>>
    [] SetupName = "trk" -> <<New(1), [o |-> "onew", ob |-> 1, kind |-> "f"], [o |-> "onew", ob |-> 2, kind |-> "f"],
                              K(1, 1, 2, 0, 0, 1, "p", 0, <<1>>), K(1, 2, 2, 0, 0, 2, "p", 0, <<1, 2>>)>>
    [] SetupName = "chain" -> <<New(1), New(2), K(2, 1, 2, 0, 0, 1, "p", 0, <<>>), K(1, 2, 2, 0, 0, 0, "c", 2, <<>>), K(1, 3, 2, 0, 0, 2, "p", 0, <<>>)>>
    [] SetupName = "blk" -> <<New(1), K(1, 1, 2, 0, 0, 1, "p", 0, <<>>), K(1, 2, 2, 0, 0, 2, "p", 0, <<>>),
                              [o |-> "bnew", b |-> 1, nm |-> 1, i |-> 0], [o |-> "bnew", b |-> 2, nm |-> 1, i |-> 1]>>
    [] SetupName = "blk0" -> <<New(1), K(1, 1, 2, 0, 0, 1, "p", 0, <<>>),
                              [o |-> "bnew", b |-> 1, nm |-> 1, i |-> 0], [o |-> "bnew", b |-> 2, nm |-> 1, i |-> 0]>>
    [] SetupName = "gone" -> <<New(1), K(1, 1, 2, 0, 0, 1, "p", 0, <<>>), K(1, 2, 2, 0, 0, 2, "p", 0, <<>>), K(1, 3, 2, 0, 0, 2, "p", 0, <<>>),
                              [o |-> "disc", nm |-> 2], [o |-> "disc", nm |-> 3]>>
\* the catalogue; t: the thread (9: a slot or a destructor)
Cat(x, t) ==
  CASE x = "emit" -> [o |-> "emit", hd |-> 1, v |-> 10 + t, flt |-> 0]
    [] x = "emit2" -> [o |-> "emit", hd |-> 2, v |-> 20 + t, flt |-> 0]
    [] x = "d1" -> [o |-> "disc", nm |-> 1]
    [] x = "d2" -> [o |-> "disc", nm |-> 2]
    [] x = "dAll" -> [o |-> "discAll", hd |-> 1]
    [] x = "dG" -> [o |-> "discGrp", hd |-> 1, g |-> 1]
    [] x = "dF" -> [o |-> "discFn", hd |-> 1, f |-> 1]
    [] x = "cB" -> K(1, 3 + t, 2, 0, 0, 1, "p", 0, <<>>)
    [] x = "cF" -> K(1, 3 + t, 0, 0, 1, 1, "p", 0, <<>>)
    [] x = "cG" -> K(1, 3 + t, 1, 1, 0, 2, "p", 0, <<>>)
    [] x = "cT" -> K(1, 3 + t, 2, 0, 0, 1, "p", 0, <<2>>)
    [] x = "num" -> [o |-> "num", hd |-> 1]
    [] x = "empty" -> [o |-> "empty", hd |-> 1]
    [] x = "q1" -> [o |-> "connected", nm |-> 1]
    [] x = "q2" -> [o |-> "connected", nm |-> 2]
    [] x = "bq1" -> [o |-> "blockedq", nm |-> 1]
    [] x = "bq2" -> [o |-> "blockedq", nm |-> 2]
    [] x = "d3" -> [o |-> "disc", nm |-> 3]
    [] x = "bn" -> [o |-> "bnew", b |-> 2 + t, nm |-> 1, i |-> 1]
    [] x = "bon" -> [o |-> "bblock", b |-> t]
    [] x = "boff" -> [o |-> "bunblock", b |-> t]
    [] x = "bdel" -> [o |-> "bdel", b |-> t]
    [] x = "od" -> [o |-> "odrop", ob |-> t]
    [] x = "sc" -> [o |-> "setcomb", hd |-> 1, cb |-> 2 + t, flt |-> 0]
    [] x = "cq" -> [o |-> "combq", hd |-> 1, flt |-> 0]
    [] x = "del2" -> [o |-> "del", hd |-> 2]
    \* an allocation or a copy fails during the operation
    [] x = "cq!" -> [o |-> "combq", hd |-> 1, flt |-> 1, fa |-> 0]
    [] x = "sc!" -> [o |-> "setcomb", hd |-> 1, cb |-> 2 + t, flt |-> 1, fa |-> 0]
    [] x = "sc!1" -> [o |-> "setcomb", hd |-> 1, cb |-> 2 + t, flt |-> 1, fa |-> 1]
    [] x = "cB!" -> [K(1, 3 + t, 2, 0, 0, 1, "p", 0, <<>>) EXCEPT !.flt = 1] @@ [fa |-> 3]
    [] x = "cG!" -> [K(1, 3 + t, 1, 1, 0, 2, "p", 0, <<>>) EXCEPT !.flt = 1] @@ [fa |-> 7]

Seqs(S, n) == IF n = 0 THEN {<<>>} ELSE [1..n -> S]
Conns == {"cB", "cF", "cG", "cT", "cB!", "cG!"}
OnlyOnce == Conns \cup {"od", "bn", "bdel", "del2"}   \* at most one of these kinds per thread
Sensible(s) == \A i, j \in DOMAIN s : i # j => ~(s[i] \in Conns /\ s[j] \in Conns)
                                              /\ ~(s[i] = s[j] /\ s[i] \in OnlyOnce)
                                              /\ ~(s[i] \in {"bdel", "del2"} /\ i < j /\ s[j] \in {"bon", "boff", "emit2"})

MCInit ==
  /\ Init
  /\ \E a \in Seqs(Ops1, L1), b \in Seqs(Ops2, L2), d \in Seqs(Ops3, L3), i \in InOps, q \in DtOps :
       /\ Sensible(a) /\ Sensible(b) /\ Sensible(d)
       /\ prog = [th |-> <<a, b, d>>, inn |-> i, dt |-> q]
  /\ todo = [t \in Threads |-> IF t = 1 THEN Setup ELSE <<>>]
  /\ ph = "setup"
  /\ nmap = [n \in 1..12 |-> 0]
  /\ used = {}
  /\ g = [off |-> {}, bad |-> {}]

Ready(c) == c > 0 /\ con[c].st # "new" /\ ~SomeFrame(stk, LAMBDA f : f.k = "O" /\ f.o = "connect" /\ f.a.c = c)
Ref(n) == IF Ready(nmap[n]) THEN nmap[n] ELSE 0
Res(e) == CASE e.o = "connect" -> e @@ [c |-> Len(con) + 1]
            [] "nm" \in DOMAIN e -> e @@ [c |-> Ref(e.nm)]
            [] OTHER -> e
Possible(e) == CASE e.o = "connect" -> nmap[e.nm] = 0
                 [] e.o \in {"bblock", "bunblock", "bdel"} -> blk[e.b].ex
                 [] e.o = "bnew" -> ~blk[e.b].ex
                 [] e.o = "odrop" -> e.ob \in DOMAIN obj /\ obj[e.ob].own
                 [] OTHER -> TRUE
Issue(t, e) ==
  /\ EvOp(t, Res(e))
  /\ nmap' = IF e.o = "connect" THEN [nmap EXCEPT ![e.nm] = Len(con) + 1] ELSE nmap

\* the next operation of an idle thread (one that is not possible is left out)
EnvOp(t) ==
  /\ stk[t] = <<>> /\ todo[t] # <<>>
  /\ todo' = [todo EXCEPT ![t] = Tail(@)]
  /\ IF Possible(Head(todo[t])) THEN Issue(t, Head(todo[t])) ELSE UNCHANGED <<vars, nmap>>
  /\ UNCHANGED <<prog, ph, used, g>>
Start ==
  /\ ph = "setup" /\ todo[1] = <<>> /\ stk[1] = <<>>
  /\ ph' = "run"
  /\ todo' = [t \in Threads |-> [i \in DOMAIN prog.th[t] |-> Cat(prog.th[t][i], t)]]
  /\ UNCHANGED <<vars, prog, nmap, used, g>>
\* what the slot with name 1 does when it is called first; destructor of its function
Nested(t) ==
  \/ /\ TopIs(t, "C") /\ Top(t).c = nmap[1] /\ prog.inn # "" /\ "in" \notin used
     /\ used' = used \cup {"in"}
     /\ IF Possible(Cat(prog.inn, 9)) THEN Issue(t, Cat(prog.inn, 9)) ELSE UNCHANGED <<vars, nmap>>
     /\ UNCHANGED <<prog, todo, ph, g>>
  \/ /\ TopIs(t, "S") /\ Top(t).c = nmap[1] /\ prog.dt # "" /\ "dt" \notin used
     /\ used' = used \cup {"dt"}
     /\ IF Possible(Cat(prog.dt, 8)) THEN Issue(t, Cat(prog.dt, 8)) ELSE UNCHANGED <<vars, nmap>>
     /\ UNCHANGED <<prog, todo, ph, g>>
NestedDone(t) == /\ (TopIs(t, "C") /\ Top(t).c = nmap[1] /\ prog.inn # "") => "in" \in used
                 /\ (TopIs(t, "S") /\ Top(t).c = nmap[1] /\ prog.dt # "") => "dt" \in used

EnvRet(t) ==
  /\ TopIs(t, "O") /\ Top(t).ph = "done"
  /\ EvRet(t, [r |-> Top(t).res, x |-> Top(t).exc])
  /\ g' = [g EXCEPT !.off = @ \cup
             CASE Top(t).o = "disc" -> {Top(t).a.c} \ {0}
               [] Top(t).o = "connected" /\ Top(t).res = 0 -> {Top(t).a.c} \ {0}
               [] Top(t).o \in {"discAll", "discGrp", "discFn"} -> {Top(t).snap[j] : j \in DOMAIN Top(t).snap}
               [] OTHER -> {},
           !.bad = @ \cup   \* promises that have been broken
             CASE Top(t).o = "connect" /\ ~(con[Top(t).a.c].st = "on" => InSeq(imp[con[Top(t).a.c].impl].list, Top(t).a.c)) -> {"lost connect"}
               [] OTHER -> {}]
  /\ UNCHANGED <<prog, todo, ph, nmap, used>>

U == UNCHANGED <<prog, todo, ph, nmap, used, g>>
EnvEmit(t) ==
  /\ U
  /\ \/ EvComb(t, [id |-> Top(t).comb, end |-> B2I(Top(t).pos > Len(Top(t).snap))])
     \/ TopIs(t, "E") /\ Top(t).ph = "run" /\ Top(t).val = <<>> /\ EvDeref(t, <<>>)
     \/ TopIs(t, "E") /\ Top(t).ph = "run" /\ Top(t).val # <<>> /\ EvInc(t, <<>>)
     \/ TopIs(t, "E") /\ Top(t).ph = "incd" /\ EvIncR(t, [end |-> B2I(Top(t).pos > Len(Top(t).snap))])
     \/ TopIs(t, "E") /\ Top(t).ph = "run" /\ Top(t).pos > Len(Top(t).snap) /\ EvCEnd(t, [id |-> Top(t).comb, v |-> 7, x |-> 0])
     \/ TopIs(t, "E") /\ Top(t).ph = "der" /\ Top(t).val # <<>> /\ EvDerR(t, [v |-> Top(t).val[1]])
     \/ /\ TopIs(t, "E") /\ Top(t).ph = "der" /\ Top(t).val = <<>> /\ Top(t).exc = 0 /\ con[Cur(Top(t))].kind # "c"
        /\ EvCall(t, [c |-> Cur(Top(t)), v |-> Top(t).arg, self |-> Cur(Top(t))])
     \/ TopIs(t, "C") /\ NestedDone(t) /\ EvCRet(t, [v |-> Top(t).c])
\* the library destroys what it must as soon as it may
EnvDtor(t) ==
  /\ U
  /\ \/ \E c \in DOMAIN con : EvSDtor(t, [c |-> c])
     \/ \E o \in DOMAIN obj : EvODtor(t, [ob |-> o])
     \/ TopIs(t, "S") /\ NestedDone(t) /\ EvSDtorE(t, <<>>)
     \/ EvODtorE(t, <<>>)

AllDone == ph = "run" /\ \A t \in Threads : stk[t] = <<>> /\ todo[t] = <<>>
MCNext ==
  \/ \E t \in Threads : EnvOp(t) \/ Nested(t) \/ EnvRet(t) \/ EnvEmit(t) \/ EnvDtor(t)
  \/ Start
  \/ Silent /\ U
  \/ AllDone /\ UNCHANGED mcvars
Spec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)

-----------------------------------------------------------------------------
\* every program comes to its end (with the absence of deadlock)
Terminates == <>AllDone
\* an operation does not wait for another thread: each thread can take a step on its own
\* (a thread whose operation waits for the end of a promptness condition can destroy what is left)
NeverStuck == \A t \in Threads : stk[t] # <<>> => ENABLED (EnvOp(t) \/ Nested(t) \/ EnvRet(t) \/ EnvEmit(t) \/ EnvDtor(t) \/ ((Lin(t) \/ MidStep(t) \/ Seek(t) \/ ExpDisc(t) \/ DropHold(t) \/ Chain(t) \/ Fin(t) \/ Reap) /\ U))
OffForEver == \A c \in g.off : con[c].st \in {"off", "dy"} \/ Expired(c)
Kept == g.bad = {}
\* after a disconnection has returned, or while a block is there, no emission selects the slot;
\* a position is passed over only if its slot may not be called
NoLateCall == [][\A t \in Threads : \A j \in 1..Len(stk'[t]) :
                   (stk'[t][j].k = "E" /\ stk'[t][j].ph \in {"first", "incd"} /\ stk'[t][j].pos <= Len(stk'[t][j].snap)
                    /\ (IF j > Len(stk[t]) THEN TRUE ELSE stk[t][j].ph \in {"seek", "inc"}))
                   => LET c == stk'[t][j].snap[stk'[t][j].pos] IN c \notin g.off /\ ~Blocked(c) /\ EffOn(c)]_mcvars
Forward == [][\A t \in Threads : \A j \in 1..(IF Len(stk[t]) < Len(stk'[t]) THEN Len(stk[t]) ELSE Len(stk'[t])) :
                (stk[t][j].k = "E" /\ stk'[t][j].k = "E" /\ stk[t][j].ph # "fin") =>
                   /\ stk'[t][j].snap = stk[t][j].snap
                   /\ stk'[t][j].pos \in {stk[t][j].pos, stk[t][j].pos + 1}
                   /\ stk'[t][j].comb = stk[t][j].comb
                   /\ (stk'[t][j].pos = stk[t][j].pos + 1 /\ stk[t][j].ph # "run") =>
                        LET c == stk[t][j].snap[stk[t][j].pos] IN ~EffOn(c) \/ Blocked(c)]_mcvars
SnapUnique == \A t \in Threads : \A j \in 1..Len(stk[t]) : stk[t][j].k = "E" =>
                \A a, b \in DOMAIN stk[t][j].snap : a # b => stk[t][j].snap[a] # stk[t][j].snap[b]
\* a slot function is never destroyed while any thread executes it
NoUseAfter == \A t \in Threads : \A j \in 1..Len(stk[t]) : stk[t][j].k = "C" => con[stk[t][j].c].fd = 0
Clean == (\A t \in Threads : stk[t] = <<>>) => /\ \A c \in DOMAIN con : ~Doomed(c)
                                               /\ \A o \in DOMAIN obj : ~DeadPending(o)

-----------------------------------------------------------------------------
S(k, v) == " " \o k \o "=" \o ToString(v)
RECURSIVE Dots(_)
Dots(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "." \o Dots(Tail(s))
Tok(e) ==
  LET b == "op " \o e.o \o (IF Flt(e) THEN S("flt", 1) \o S("fa", e.fa) ELSE "") IN
  CASE e.o = "new" -> b \o S("hd", e.hd) \o S("cb", e.cb) \o S("cmp", e.cmp)
    [] e.o = "connect" -> b \o S("hd", e.hd) \o S("nm", e.nm) \o S("p", e.p) \o S("g", e.g) \o S("fr", e.fr) \o S("f", e.f) \o S("gd", e.gd) \o " kind=" \o e.kind \o " trk=" \o Dots(e.trk)
    [] e.o \in {"del", "num", "empty", "combq", "discAll"} -> b \o S("hd", e.hd)
    [] e.o = "setcomb" -> b \o S("hd", e.hd) \o S("cb", e.cb)
    [] e.o = "discGrp" -> b \o S("hd", e.hd) \o S("g", e.g)
    [] e.o = "discFn" -> b \o S("hd", e.hd) \o S("f", e.f)
    [] e.o \in {"disc", "connected", "blockedq"} -> b \o S("nm", e.nm)
    [] e.o = "bnew" -> b \o S("b", e.b) \o S("nm", e.nm) \o S("i", e.i)
    [] e.o \in {"bdel", "bblock", "bunblock"} -> b \o S("b", e.b)
    [] e.o = "onew" -> b \o " kind=" \o e.kind
    [] e.o = "odrop" -> b \o S("ob", e.ob)
    [] e.o = "emit" -> b \o S("hd", e.hd) \o S("v", e.v) \o S("cst", e.v % 2)
RECURSIVE Join(_, _, _)
Join(s, i, x) == IF i > Len(s) THEN "" ELSE Tok(s[i]) \o x \o ";" \o Join(s, i + 1, x)
Th(t) == LET s == prog.th[t] IN Join([i \in DOMAIN s |-> Cat(s[i], t)], 1, S("th", t))
ThOf(t) == IF t \in Threads THEN Th(t) ELSE ""
Text == Join(Setup, 1, "") \o ThOf(1) \o ThOf(2) \o ThOf(3)
        \o (IF prog.inn = "" THEN "" ELSE Tok(Cat(prog.inn, 9)) \o " in=1;") \o (IF prog.dt = "" THEN "" ELSE Tok(Cat(prog.dt, 8)) \o " dt=1;")
Script == IF Emit /\ ph = "setup" /\ ph' = "run" THEN PrintT("SCRIPT " \o Text) ELSE TRUE
=============================================================================
