------------------------------ MODULE MCSignals2 ------------------------------
(***************************************************************************)
(* Exhaustive exploration of Signals2 with an environment that chooses the *)
(* operations, what slots, combiners and destructors do, and their nesting *)
(* (within the bounds given by the constants).                             *)
(*                                                                         *)
(* Besides checking the invariants, the exploration writes scripts: with   *)
(* the variable path (excluded from the fingerprint by the VIEW) every     *)
(* transition of the reachable state graph yields one sequence of          *)
(* decisions of the environment, which harness/seq.cpp executes on the     *)
(* real library.                                                           *)
(***************************************************************************)
EXTENDS Signals2

CONSTANTS
  MaxOps,    \* operations altogether
  MaxConn, MaxObj, MaxSig,
  MaxDepth,  \* frames
  Main, InSlot, InDtor2, InComb,   \* operations allowed at top level / in slots / destructors / combiners
  KeyCodes,  \* connect positions: place * 100 + group * 10 + front
  Kinds,     \* of connections: subset of {"p", "x", "c"}
  OKinds,    \* of tracked objects
  HTypes,    \* types of connection objects: subset of {"c", "s"}
  Fns,       \* function identities
  Cmps,      \* comparisons
  Combs,     \* combiner identities given to set_combiner
  Throws,    \* exception codes thrown by slots
  Visit,     \* "all": the combiner dereferences every position once; "free": anything
  Emit,      \* print scripts
  Sample     \* one of how many

VARIABLES n, path, g    \* g: history of what has been promised to the users
mcvars == <<vars, n, path, g>>
View == <<vars, n, g>>

\* signals 1 is created at the start
MCInit ==
  /\ sig = [h \in 1..NH |-> IF h = 1 THEN 1 ELSE -1]
  /\ imp = <<[list |-> <<>>, comb |-> 1, cmp |-> CHOOSE k \in Cmps : TRUE, alive |-> TRUE]>>
  /\ con = <<>>
  /\ blk = [b \in 1..NB |-> [ex |-> FALSE, c |-> 0, on |-> FALSE]]
  /\ obj = <<>>
  /\ hnd = [k \in 1..NK |-> NoHnd]
  /\ gone = {}
  /\ ord = {}
  /\ stk = [t \in Threads |-> <<>>]
  /\ n = 0
  /\ path = "op new flt=0 hd=1 cb=1 cmp=" \o ToString(CHOOSE k \in Cmps : TRUE)
  /\ g = [off |-> {}]

S(k, v) == " " \o k \o "=" \o ToString(v)
RECURSIVE Dots(_)
Dots(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN ToString(s[1]) ELSE ToString(s[1]) \o "." \o Dots(Tail(s))
Tok(e) ==
  LET b == "op " \o e.o \o " flt=0" IN
  CASE e.o = "new" -> b \o S("hd", e.hd) \o S("cb", e.cb) \o S("cmp", e.cmp)
    [] e.o \in {"del", "num", "empty", "null", "combq", "discAll"} -> b \o S("hd", e.hd)
    [] e.o \in {"move", "massign", "swap", "eqh", "discSig"} -> b \o S("hd", e.hd) \o S("gd", e.gd)
    [] e.o = "connect" -> b \o S("hd", e.hd) \o S("c", e.c) \o S("p", e.p) \o S("g", e.g) \o S("fr", e.fr) \o S("f", e.f)
                            \o S("gd", e.gd) \o " kind=" \o e.kind \o " trk=" \o Dots(e.trk)
    [] e.o = "setcomb" -> b \o S("hd", e.hd) \o S("cb", e.cb)
    [] e.o = "discGrp" -> b \o S("hd", e.hd) \o S("g", e.g)
    [] e.o = "discFn" -> b \o S("hd", e.hd) \o S("f", e.f)
    [] e.o \in {"disc", "connected", "blockedq"} -> b \o S("c", e.c) \o S("via", n % 3)
    [] e.o = "bnew" -> b \o S("b", e.b) \o S("c", e.c) \o S("i", e.i)
    [] e.o \in {"bcopy", "bassign"} -> b \o S("b", e.b) \o S("b2", e.b2)
    [] e.o \in {"bdel", "bblock", "bunblock", "bblocking"} -> b \o S("b", e.b)
    [] e.o = "onew" -> b \o S("ob", e.ob) \o " kind=" \o e.kind
    [] e.o = "odrop" -> b \o S("ob", e.ob)
    [] e.o = "ocopy" -> b \o S("ob", e.ob) \o S("b2", e.b2) \o " kind=" \o e.kind
    [] e.o = "oassign" -> b \o S("ob", e.ob) \o S("b2", e.b2)
    [] e.o = "hnew" -> b \o S("k", e.k) \o S("c", e.c) \o " kind=" \o e.kind \o S("via", n % 3)
    [] e.o = "hset" -> b \o S("k", e.k) \o S("c", e.c) \o S("via", n % 2)
    [] e.o \in {"hcpy", "hmov"} -> b \o S("k", e.k) \o S("j", e.j) \o " kind=" \o e.kind
    [] e.o \in {"has", "hmas", "hswp", "hrel", "heq", "hlt"} -> b \o S("k", e.k) \o S("j", e.j)
    [] e.o \in {"hdel", "hdisc", "hconn", "hblk"} -> b \o S("k", e.k)
    [] e.o = "emit" -> b \o S("hd", e.hd) \o S("v", e.v) \o S("cst", e.v % 2)

First(A) == IF A = {} THEN {} ELSE {CHOOSE x \in A : \A y \in A : x <= y}
\* handles and scoped connections that a member function is working on must not be destroyed
Pinned(h) == SomeFrame(stk, LAMBDA f : f.k = "O" /\ f.o \in {"connect", "massign", "num", "empty", "discAll", "discGrp", "discFn", "discSig"}
                                        /\ (f.a.hd = h \/ ("gd" \in DOMAIN f.a /\ f.a.gd = h)))
KPinned(k) == SomeFrame(stk, LAMBDA f : f.k = "O" /\ f.o \in {"hset", "has", "hmas"} /\ (f.a.k = k \/ ("j" \in DOMAIN f.a /\ f.a.j = k)))
Ks == {k \in 1..NK : hnd[k].ty # "" /\ ~KPinned(k)}
KFree == First({k \in 1..NK : hnd[k].ty = "" /\ ~KPinned(k)})
\* connections that connect() has returned
Ready(c) == con[c].st # "new" /\ ~SomeFrame(stk, LAMBDA f : f.k = "O" /\ f.o = "connect" /\ f.a.c = c)
Cs == {c \in DOMAIN con : Ready(c)}
Sigs == {h \in 1..NH : sig[h] # -1}
Live == {h \in 1..NH : sig[h] > 0}
Free == {h \in 1..NH : sig[h] = -1 /\ ~Pinned(h)}
Loose == {h \in Sigs : ~Pinned(h)}
Tracks == {<<>>} \cup {<<o>> : o \in {o \in DOMAIN obj : obj[o].own}}

Keys == {<<x \div 100, (x \div 10) % 10, x % 10>> : x \in KeyCodes}

Choices(o) ==
  CASE o = "new" -> IF Cardinality(Sigs) >= MaxSig THEN {} ELSE {[o |-> o, hd |-> h, cb |-> 1, cmp |-> k] : h \in First(Free), k \in Cmps}
    [] o = "del" -> {[o |-> o, hd |-> h] : h \in Loose}
    [] o = "move" -> {[o |-> o, hd |-> h, gd |-> d] : h \in First(Free), d \in Loose}
    [] o \in {"massign", "swap"} -> {[o |-> o, hd |-> h, gd |-> d] : h \in Loose, d \in Loose}
    [] o = "connect" -> IF Len(con) >= MaxConn THEN {} ELSE
         {[o |-> o, hd |-> h, c |-> Len(con) + 1, p |-> k[1], g |-> k[2], fr |-> k[3],
           f |-> IF kd = "c" THEN 0 ELSE IF tr # <<>> /\ obj[tr[1]].kind = "t" THEN 1000 + Len(con) ELSE f,
           gd |-> IF kd = "c" THEN d ELSE 0, kind |-> kd, trk |-> IF kd = "c" THEN <<>> ELSE tr, flt |-> 0] :
            h \in Live, k \in Keys, f \in Fns, kd \in Kinds, d \in Live, tr \in Tracks}
    [] o = "setcomb" -> {[o |-> o, hd |-> h, cb |-> x, flt |-> 0] : h \in Live, x \in Combs}
    [] o \in {"num", "empty", "null", "discAll"} -> {[o |-> o, hd |-> h] : h \in Sigs}
    [] o = "combq" -> {[o |-> o, hd |-> h] : h \in Live}
    [] o = "eqh" -> {[o |-> o, hd |-> h, gd |-> d] : h \in Sigs, d \in Sigs}
    [] o = "discGrp" -> {[o |-> o, hd |-> h, g |-> k[2]] : h \in Sigs, k \in {k \in Keys : k[1] = 1}}
    [] o = "discFn" -> {[o |-> o, hd |-> h, f |-> f] : h \in Sigs, f \in Fns}
    [] o = "discSig" -> {[o |-> o, hd |-> h, gd |-> d] : h \in Sigs, d \in Live}
    [] o \in {"disc", "connected", "blockedq"} -> {[o |-> o, c |-> c] : c \in Cs}
    [] o = "bnew" -> {[o |-> o, b |-> b, c |-> c, i |-> 1] : b \in First({b \in 1..NB : ~blk[b].ex}), c \in Cs}
    [] o \in {"bcopy"} -> {[o |-> o, b |-> b, b2 |-> q] : b \in First({b \in 1..NB : ~blk[b].ex}), q \in {b \in 1..NB : blk[b].ex}}
    [] o \in {"bassign"} -> {[o |-> o, b |-> b, b2 |-> q] : b, q \in {b \in 1..NB : blk[b].ex}}
    [] o \in {"bdel", "bblock", "bunblock", "bblocking"} -> {[o |-> o, b |-> b] : b \in {b \in 1..NB : blk[b].ex}}
    [] o = "onew" -> IF Len(obj) >= MaxObj THEN {} ELSE {[o |-> o, ob |-> Len(obj) + 1, kind |-> k] : k \in OKinds}
    [] o = "odrop" -> {[o |-> o, ob |-> x] : x \in {x \in DOMAIN obj : obj[x].own}}
    [] o = "ocopy" -> IF Len(obj) >= MaxObj THEN {} ELSE {[o |-> o, ob |-> Len(obj) + 1, b2 |-> x, kind |-> "t"] : x \in {x \in DOMAIN obj : obj[x].own /\ obj[x].kind = "t"}}
    [] o = "oassign" -> {[o |-> o, ob |-> x, b2 |-> y] : x, y \in {x \in DOMAIN obj : obj[x].own /\ obj[x].kind = "t"}}
    [] o = "hnew" -> {[o |-> o, k |-> k, c |-> c, kind |-> y] : k \in KFree, c \in Cs, y \in HTypes}
    [] o = "hset" -> {[o |-> o, k |-> k, c |-> c] : k \in Ks, c \in Cs}
    [] o \in {"hcpy", "hmov"} -> {[o |-> o, k |-> k, j |-> j, kind |-> y] : k \in KFree, j \in Ks, y \in HTypes}
    [] o = "has" -> {e \in {[o |-> o, k |-> k, j |-> j] : k \in Ks, j \in Ks} : e.k # e.j \/ hnd[e.k].ty = "c"}
    [] o \in {"hmas", "hswp"} -> {[o |-> o, k |-> k, j |-> j] : k \in Ks, j \in Ks}
    [] o = "heq" -> {[o |-> o, k |-> k, j |-> j] : k \in Ks, j \in Ks \cup {0}}
    [] o = "hlt" -> {[o |-> o, k |-> k, j |-> j] : k \in Ks, j \in Ks}
    [] o = "hrel" -> {[o |-> o, k |-> k, j |-> j] : k \in {k \in Ks : hnd[k].ty = "s"}, j \in KFree}
    [] o \in {"hdel", "hdisc", "hconn", "hblk"} -> {[o |-> o, k |-> k] : k \in Ks}
    [] o = "emit" -> {[o |-> o, hd |-> h, v |-> n] : h \in Live}

OpsHere(t) == IF Depth(t) = 0 THEN Main
              ELSE CASE Top(t).k = "C" -> InSlot [] Top(t).k \in {"S", "D"} -> InDtor2 [] OTHER -> InComb
P(x) == path' = path \o ";" \o x

EnvOp(t) ==
  /\ n < MaxOps
  /\ UserCtx(t)
  /\ Depth(t) < MaxDepth
  /\ \E o \in OpsHere(t) : \E e \in Choices(o) :
       /\ EvOp(t, e)
       /\ n' = n + 1
       /\ P(Tok(e))
       /\ UNCHANGED g

EnvRet(t) ==
  /\ TopIs(t, "O") /\ Top(t).ph = "done"
  /\ EvRet(t, [r |-> Top(t).res, x |-> Top(t).exc])
  /\ UNCHANGED <<n, path>>
  /\ g' = [g EXCEPT !.off = @ \cup
             CASE Top(t).o = "disc" -> {Top(t).a.c}
               [] Top(t).o = "connected" /\ Top(t).res = 0 -> {Top(t).a.c}
               [] Top(t).o = "discAll" -> {}
               [] OTHER -> {}]

EnvEmit(t) ==
  \/ /\ EvComb(t, [id |-> Top(t).comb, end |-> B2I(Top(t).pos > Len(Top(t).snap))]) /\ UNCHANGED <<n, path, g>>
  \/ /\ TopIs(t, "E") /\ Top(t).ph = "run" /\ (Visit = "free" \/ Top(t).val = <<>>)
     /\ EvDeref(t, <<>>) /\ P("deref m=0") /\ UNCHANGED <<n, g>>
  \/ /\ TopIs(t, "E") /\ Top(t).ph = "run" /\ (Visit = "free" \/ Top(t).val # <<>>)
     /\ EvInc(t, <<>>) /\ P("inc") /\ UNCHANGED <<n, g>>
  \/ /\ TopIs(t, "E") /\ Top(t).ph = "incd" /\ EvIncR(t, [end |-> B2I(Top(t).pos > Len(Top(t).snap))]) /\ UNCHANGED <<n, path, g>>
  \/ /\ TopIs(t, "E") /\ Top(t).ph = "run" /\ (Visit = "free" \/ Top(t).pos > Len(Top(t).snap))
     /\ EvCEnd(t, [id |-> Top(t).comb, v |-> 7, x |-> 0]) /\ P("cend v=7 x=0") /\ UNCHANGED <<n, g>>
  \/ /\ TopIs(t, "E") /\ Top(t).ph = "der" /\ Top(t).val # <<>>
     /\ EvDerR(t, [v |-> Top(t).val[1]]) /\ UNCHANGED <<n, path, g>>
  \/ /\ TopIs(t, "E") /\ Top(t).ph = "der" /\ Top(t).exc # 0
     /\ EvDerX(t, [x |-> Top(t).exc]) /\ UNCHANGED <<n, path, g>>
  \* the plain combiner lets the exception of a slot pass
  \/ /\ TopIs(t, "E") /\ Top(t).ph = "der" /\ Top(t).val = <<>> /\ Top(t).exc = 0
     /\ con[Cur(Top(t))].kind # "c"
     /\ EvCall(t, [c |-> Cur(Top(t)), v |-> Top(t).arg, self |-> Cur(Top(t))]) /\ UNCHANGED <<n, path, g>>
  \/ /\ TopIs(t, "C") /\ EvCRet(t, [v |-> Top(t).c]) /\ P("cret v=" \o ToString(Top(t).c)) /\ UNCHANGED <<n, g>>
  \/ /\ TopIs(t, "C") /\ \E x \in Throws : EvCThrow(t, [x |-> x]) /\ P("cthrow x=" \o ToString(x)) /\ UNCHANGED <<n, g>>

EnvDtor(t) ==
  \/ \E c \in DOMAIN con : EvSDtor(t, [c |-> c]) /\ UNCHANGED <<n, path, g>>
  \/ \E o \in DOMAIN obj : EvODtor(t, [ob |-> o]) /\ UNCHANGED <<n, path, g>>
  \/ EvSDtorE(t, <<>>) /\ P("sdtorE") /\ UNCHANGED <<n, g>>
  \/ EvODtorE(t, <<>>) /\ P("odtorE") /\ UNCHANGED <<n, g>>

MCNext ==
  \/ \E t \in Threads : EnvOp(t) \/ EnvRet(t) \/ EnvEmit(t) \/ EnvDtor(t)
  \/ Silent /\ UNCHANGED <<n, path, g>>

\* chained emissions nest without an operation of the environment: bound them too
DepthBound == \A t \in Threads : Len(stk[t]) <= MaxDepth + 2

Spec == MCInit /\ [][MCNext]_mcvars

\* one script per decision of the environment in each state (those that are prefixes of others are
\* dropped later; Sample thins out those of large models)
Script == IF Emit /\ path' # path THEN (IF Sample = 1 \/ RandomElement(1..Sample) = 1 THEN PrintT("SCRIPT " \o path') ELSE TRUE) ELSE TRUE

-----------------------------------------------------------------------------
(* What users are promised, over the history of a behaviour *)

\* a connection found disconnected, or that has been disconnected, never becomes connected again
OffForEver == \A c \in g.off : con[c].st \in {"off", "dy"} \/ Expired(c)
\* and no emission selects it any more
NoLateCall == [][\A t \in Threads : \A j \in 1..Len(stk'[t]) :
                   (stk'[t][j].k = "E" /\ stk'[t][j].ph \in {"first", "incd"} /\ stk'[t][j].pos <= Len(stk'[t][j].snap)
                    /\ (IF j > Len(stk[t]) THEN TRUE ELSE stk[t][j].ph \in {"seek", "inc"}))
                   => LET c == stk'[t][j].snap[stk'[t][j].pos] IN c \notin g.off /\ ~Blocked(c) /\ EffOn(c)]_mcvars
\* positions of an emission only move forward over a list without repetitions: no slot is called twice
Forward == [][\A t \in Threads : \A j \in 1..(IF Len(stk[t]) < Len(stk'[t]) THEN Len(stk[t]) ELSE Len(stk'[t])) :
                (stk[t][j].k = "E" /\ stk'[t][j].k = "E" /\ stk[t][j].ph # "fin") =>
                   /\ stk'[t][j].snap = stk[t][j].snap
                   /\ stk'[t][j].pos \in {stk[t][j].pos, stk[t][j].pos + 1}
                   /\ stk'[t][j].comb = stk[t][j].comb
                   \* a position is passed over only if the combiner passed it or its slot may not be called
                   /\ (stk'[t][j].pos = stk[t][j].pos + 1 /\ stk[t][j].ph # "run") =>
                        LET c == stk[t][j].snap[stk[t][j].pos] IN ~EffOn(c) \/ Blocked(c)]_mcvars
SnapUnique == \A t \in Threads : \A j \in 1..Len(stk[t]) : stk[t][j].k = "E" =>
                \A a, b \in DOMAIN stk[t][j].snap : a # b => stk[t][j].snap[a] # stk[t][j].snap[b]
\* the order of connected slots never changes
OrderKept == [][\A i \in DOMAIN imp : imp[i].alive /\ imp'[i].alive =>
                  SelectSeq(imp[i].list, LAMBDA c : InSeq(imp'[i].list, c)) = SelectSeq(imp'[i].list, LAMBDA c : InSeq(imp[i].list, c))]_mcvars
\* nothing is left behind at the top level
Clean == (\A t \in Threads : stk[t] = <<>>) => /\ \A c \in DOMAIN con : ~Doomed(c)
                                               /\ \A o \in DOMAIN obj : ~DeadPending(o)
=============================================================================
