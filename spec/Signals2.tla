------------------------------ MODULE Signals2 ------------------------------
(***************************************************************************)
(* Abstract state machine of Boost.Signals2: signals, connections, blocks, *)
(* tracked objects, scoped connections, emissions with their combiners,    *)
(* and the (nested) operations of any number of threads.                   *)
(*                                                                         *)
(* Every transition is either an event, i.e. something that is observable  *)
(* at the public interface and carries a record e with its arguments and   *)
(* results (Ev... actions), or a silent step inside the library (one       *)
(* critical section each).  Trace.tla replays recorded events of the real  *)
(* code through the Ev... actions; MCSignals2.tla lets the environment     *)
(* choose them.                                                            *)
(*                                                                         *)
(* Each thread has a stack of frames, one per activity in progress:        *)
(*   O  operation of the public interface                                  *)
(*   E  emission (of a signal called directly, or chained into another)    *)
(*   C  slot function being executed                                       *)
(*   S  destructor of a slot function                                      *)
(*   D  destructor of a tracked object                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Threads,   \* set of thread ids
          NH, NB, NK, \* number of signal handles, blocks, connection handles
          Relax      \* {} ; {"quiet"}, {"ret"}, {"lock"}: used to diagnose rejected traces

VARIABLES
  sig,  \* [1..NH -> implementation id | 0 (null) | -1 (no such object)]
  imp,  \* sequence of signal implementations
  con,  \* sequence of connections
  blk,  \* [1..NB -> block]
  obj,  \* sequence of trackable/tracked objects
  hnd,  \* [1..NK -> connection object: ty "" (none), "c" connection, "s" scoped_connection; c connection id | 0]
  gone, \* disconnected connections found not to exist any more
  ord,  \* pairs of connections compared with operator< (transitively closed)
  stk   \* [Threads -> Seq(frame)]

hvars == <<hnd, gone, ord>>
vars == <<sig, imp, con, blk, obj, hnd, gone, ord, stk>>

EXPIRED == 99    \* exception code of boost::signals2::expired_slot
NOMEM   == 77    \* exception code of std::bad_alloc (injected faults)

NoHnd == [ty |-> "", c |-> 0]

Init ==
  /\ sig = [h \in 1..NH |-> -1]
  /\ imp = <<>>
  /\ con = <<>>
  /\ blk = [b \in 1..NB |-> [ex |-> FALSE, c |-> 0, on |-> FALSE]]
  /\ obj = <<>>
  /\ hnd = [k \in 1..NK |-> NoHnd]
  /\ gone = {}
  /\ ord = {}
  /\ stk = [t \in Threads |-> <<>>]

-----------------------------------------------------------------------------
(* Order of slots *)

\* group comparisons: 0 less, 1 greater, k>1 less modulo k
GLess(k, a, b) == CASE k = 0 -> a < b [] k = 1 -> a > b [] OTHER -> (a % k) < (b % k)
\* keys are <<0,0>> ungrouped front, <<1,g>> grouped, <<2,0>> ungrouped back
KLess(k, x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[1] = 1 /\ GLess(k, x[2], y[2]))
KEquiv(k, x, y) == ~KLess(k, x, y) /\ ~KLess(k, y, x)

InsertAt(list, k, key, front) ==
  IF front THEN Cardinality({j \in DOMAIN list : KLess(k, con[list[j]].key, key)})
           ELSE Cardinality({j \in DOMAIN list : ~KLess(k, key, con[list[j]].key)})
Insert(list, p, c) == SubSeq(list, 1, p) \o <<c>> \o SubSeq(list, p + 1, Len(list))

-----------------------------------------------------------------------------
(* Frames and what they hold *)

Depth(t) == Len(stk[t])
Top(t) == stk[t][Depth(t)]
Push(t, f) == [stk EXCEPT ![t] = Append(@, f)]
Pop(t) == [stk EXCEPT ![t] = SubSeq(@, 1, Len(@) - 1)]
SetTop(t, f) == [stk EXCEPT ![t][Len(stk[t])] = f]
TopIs(t, k) == Depth(t) > 0 /\ Top(t).k = k
SomeFrame(st, P(_)) == \E t \in Threads : \E j \in 1..Len(st[t]) : P(st[t][j])

\* phases of an emission in which the slot at its position has been selected
\* seek: looking for the first slot; first: found, combiner not yet entered
\* run: combiner running; der: dereferencing; inc/incd: incrementing; fin: combiner left
AtPh == {"first", "run", "der", "incd"}
AtSlot(f) == f.k = "E" /\ f.ph \in AtPh /\ f.pos <= Len(f.snap)
Cur(f) == f.snap[f.pos]

Used(c) == SomeFrame(stk, LAMBDA f : AtSlot(f) /\ Cur(f) = c)
\* objects kept alive for the slot being called; after the last slot they may still be
\* held until the emission ends
Strong(o) == SomeFrame(stk, LAMBDA f : AtSlot(f) /\ o \in f.hold)
Lax(o) == SomeFrame(stk, LAMBDA f : f.k = "E" /\ o \in f.hold)
ImplRef(sg, st, i) ==
  \/ \E h \in 1..NH : sg[h] = i
  \/ SomeFrame(st, LAMBDA f : f.k = "E" /\ (f.i = i \/ f.himp = i))

\* an object bound as a trackable expires at the end of its destructor,
\* an object owned by a shared pointer before its destructor starts
AliveO(o) == obj[o].st = "live" \/ (obj[o].kind = "t" /\ obj[o].st = "dying")
Expired(c) ==
  \/ \E j \in DOMAIN con[c].trk : ~AliveO(con[c].trk[j])
  \/ con[c].kind = "c" /\ (IF con[c].tgt = 0 THEN TRUE ELSE ~imp[con[c].tgt].alive)
EffOn(c) == con[c].st = "on" /\ ~Expired(c)
Blocked(c) == \E b \in 1..NB : blk[b].on /\ blk[b].c = c

\* objects locked when the slot is examined: those before the first expired one
Grab(c) ==
  LET tr == con[c].trk
      bad == {j \in DOMAIN tr : ~AliveO(tr[j])}
      n == IF bad = {} THEN Len(tr) ELSE (CHOOSE j \in bad : \A m \in bad : j <= m) - 1
  IN {tr[j] : j \in {m \in 1..n : obj[tr[m]].kind # "t"}}

-----------------------------------------------------------------------------
(* Disconnecting sets of connections; reaping unreferenced implementations *)

OffCon(cn, S) == [c \in DOMAIN cn |-> IF c \in S /\ cn[c].st = "on" THEN [cn[c] EXCEPT !.st = "off"] ELSE cn[c]]
OffImp(im, S) == [i \in DOMAIN im |-> [im[i] EXCEPT !.list = SelectSeq(@, LAMBDA c : c \notin S)]]
Off(S) == IF S = {} THEN UNCHANGED <<con, imp>> ELSE con' = OffCon(con, S) /\ imp' = OffImp(imp, S)

\* a thread that executes a slot or a combiner, and no destructor, holds on to nothing else
InDtor(t) == \E j \in 1..Depth(t) : stk[t][j].k \in {"S", "D"}
Calm(u) == stk[u] = <<>> \/ ((Top(u).k = "C" \/ (Top(u).k = "E" /\ Top(u).ph = "run")) /\ ~InDtor(u))
Busy == Cardinality({u \in Threads : ~Calm(u)}) > 1

\* an implementation that is no longer referred to dies with all its connections
Kill(R, cn, im) ==
  /\ con' = [c \in DOMAIN cn |-> IF cn[c].impl \in R /\ cn[c].st = "on" THEN [cn[c] EXCEPT !.st = "dy"] ELSE cn[c]]
  /\ imp' = [i \in DOMAIN im |-> IF i \in R THEN [im[i] EXCEPT !.alive = FALSE, !.list = <<>>] ELSE im[i]]
\* to be conjoined where handles or frames change; an operation of another thread, which examines
\* a connection, may still hold on to the signal the connection's slot is
Settle(cn, im, sg, st) ==
  LET R == {i \in DOMAIN im : im[i].alive /\ ~ImplRef(sg, st, i)}
  IN IF R = {} THEN con' = cn /\ imp' = im
     ELSE Kill(R, cn, im) \/ (Busy /\ con' = cn /\ imp' = im)
Unref == {i \in DOMAIN imp : imp[i].alive /\ ~ImplRef(sig, stk, i)}
Reap == Unref # {} /\ Kill(Unref, con, imp) /\ UNCHANGED <<sig, blk, obj, hvars, stk>>

-----------------------------------------------------------------------------
(* Promptness: outside of destructors, and while no other thread is inside   *)
(* the library,                                                             *)
(* nothing that must be destroyed is still there.                           *)

Doomed(c) == con[c].st \in {"off", "dy"} /\ con[c].fd = 0 /\ ~Used(c)
DeadPending(o) == obj[o].st = "live" /\ ~obj[o].own /\ ~Lax(o)
Solo(t) == \A u \in Threads \ {t} : stk[u] = <<>>
Alone(t) == \A u \in Threads \ {t} : Calm(u)
\* the connections of a signal that is being destroyed ("dy") are disconnected one
\* after the other; until that is over some may still report connected
MaybeOn(t, c) == con[c].st = "dy" /\ (~Alone(t) \/ InDtor(t)) /\ (con[c].fd = 0 \/ con[c].kind = "c")
Quiet(t) == ("quiet" \notin Relax /\ Alone(t) /\ ~InDtor(t)) =>
              /\ \A c \in DOMAIN con : ~Doomed(c)
              /\ \A o \in DOMAIN obj : ~DeadPending(o)
              /\ Unref = {}

-----------------------------------------------------------------------------
(* Operations: begin *)

UserCtx(t) == IF Depth(t) = 0 THEN TRUE ELSE Top(t).k \in {"C", "S", "D"} \/ (Top(t).k = "E" /\ Top(t).ph = "run")

OFrame(e) == [k |-> "O", o |-> e.o, a |-> e, ph |-> "pre", res |-> 0, exc |-> 0, snap |-> <<>>, pos |-> 1]

EvOp(t, e) ==
  /\ UserCtx(t)
  /\ Quiet(t)
  /\ stk' = Push(t, OFrame(e))
  /\ CASE e.o = "connect" ->
          /\ e.c = Len(con) + 1
          /\ con' = Append(con, [st |-> "new", impl |-> 0, key |-> <<e.p, e.g>>, trk |-> e.trk, fn |-> e.f,
                                 kind |-> e.kind, tgt |-> 0, fd |-> IF e.kind = "c" THEN 2 ELSE 0])
          /\ UNCHANGED obj
       [] e.o \in {"onew", "ocopy"} ->
          /\ e.ob = Len(obj) + 1
          /\ obj' = Append(obj, [st |-> "live", own |-> TRUE, kind |-> e.kind])
          /\ UNCHANGED con
       [] OTHER -> UNCHANGED <<con, obj>>
  /\ UNCHANGED <<sig, imp, blk, hvars>>

Done(t, r) == SetTop(t, [Top(t) EXCEPT !.ph = "done", !.res = r])
Mid(t, s) == SetTop(t, [Top(t) EXCEPT !.ph = "mid", !.snap = s])
B2I(b) == IF b THEN 1 ELSE 0
Flt(a) == IF "flt" \in DOMAIN a THEN a.flt # 0 ELSE FALSE   \* allocations of the library may fail

EFrame(i, arg, chain, flt) ==
  [k |-> "E", flt |-> flt, i |-> i, snap |-> imp[i].list, pos |-> 1, ph |-> "seek", comb |-> imp[i].comb,
   val |-> <<>>, exc |-> 0, hold |-> {}, himp |-> 0, arg |-> arg, chain |-> chain]

(***************************************************************************)
(* The linearization point of an operation (or of the first of its steps). *)
(***************************************************************************)
LinNew(t, a) ==
  /\ sig[a.hd] = -1
  /\ imp' = Append(imp, [list |-> <<>>, comb |-> a.cb, cmp |-> a.cmp, alive |-> TRUE])
  /\ sig' = [sig EXCEPT ![a.hd] = Len(imp) + 1]
  /\ stk' = Done(t, 0)
  /\ UNCHANGED <<con, blk, obj, hvars>>

LinDel(t, a) ==
  /\ sig[a.hd] # -1
  /\ sig' = [sig EXCEPT ![a.hd] = -1]
  /\ stk' = Done(t, 0)
  /\ Settle(con, imp, sig', stk')
  /\ UNCHANGED <<blk, obj, hvars>>

LinMove(t, a) ==
  /\ sig[a.hd] = -1 /\ sig[a.gd] # -1
  /\ sig' = [sig EXCEPT ![a.hd] = sig[a.gd], ![a.gd] = 0]
  /\ stk' = Done(t, 0)
  /\ UNCHANGED <<imp, con, blk, obj, hvars>>

\* first the target becomes null, which may run destructors, then the two are swapped
LinMAssign(t, a) ==
  /\ sig[a.hd] # -1 /\ sig[a.gd] # -1
  /\ IF a.hd = a.gd
     THEN stk' = Done(t, 0) /\ UNCHANGED <<sig, imp, con>>
     ELSE /\ sig' = [sig EXCEPT ![a.hd] = 0]
          /\ stk' = Mid(t, <<>>)
          /\ Settle(con, imp, sig', stk')
  /\ UNCHANGED <<blk, obj, hvars>>
MAssignStep(t, a) ==
  /\ sig' = [sig EXCEPT ![a.hd] = sig[a.gd], ![a.gd] = sig[a.hd]]
  /\ stk' = Done(t, 0)
  /\ UNCHANGED <<imp, con, blk, obj, hvars>>

LinSwap(t, a) ==
  /\ sig[a.hd] # -1 /\ sig[a.gd] # -1
  /\ sig' = [sig EXCEPT ![a.hd] = sig[a.gd], ![a.gd] = sig[a.hd]]
  /\ stk' = Done(t, 0)
  /\ UNCHANGED <<imp, con, blk, obj, hvars>>

LinConnect(t, a) ==
  LET i == sig[a.hd]
      tg == IF a.kind = "c" THEN sig[a.gd] ELSE 0
  IN /\ i > 0 /\ (a.kind = "c" => tg > 0)
     /\ con' = [con EXCEPT ![a.c] = [@ EXCEPT !.st = "on", !.impl = i, !.tgt = tg]]
     /\ imp' = [imp EXCEPT ![i].list =
                  Insert(@, InsertAt(@, imp[i].cmp, con[a.c].key, a.fr = 1), a.c)]
     /\ stk' = Done(t, 0)
     /\ UNCHANGED <<sig, blk, obj, hvars>>
\* an injected allocation failure: no effect
FailConnect(t, a) ==
  /\ con' = [con EXCEPT ![a.c].st = "off"]
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.ph = "done", !.exc = NOMEM])
  /\ UNCHANGED <<sig, imp, blk, obj, hvars>>
FailOp(t, a) ==
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.ph = "done", !.exc = NOMEM])
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

LinSetComb(t, a) ==
  /\ sig[a.hd] > 0
  /\ imp' = [imp EXCEPT ![sig[a.hd]].comb = a.cb]
  /\ stk' = Done(t, 0)
  /\ UNCHANGED <<sig, con, blk, obj, hvars>>

LinQuery(t, r) == stk' = Done(t, r) /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

ListOf(h) == IF sig[h] > 0 THEN imp[sig[h]].list ELSE <<>>
LinScan(t, s) == stk' = Mid(t, s) /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

\* one step of an operation which visits the connections of a signal in turn
ScanStep(t, a) ==
  LET f == Top(t) IN
  IF f.pos > Len(f.snap)
  THEN /\ stk' = Done(t, IF f.o = "empty" THEN 1 ELSE f.res)
       /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>
  ELSE LET c == f.snap[f.pos]
           live == EffOn(c)
           nxt == [f EXCEPT !.pos = @ + 1]
       IN CASE f.o = "num" ->
                 /\ stk' = SetTop(t, [nxt EXCEPT !.res = @ + B2I(live)])
                 /\ Off(IF Expired(c) THEN {c} ELSE {})
                 /\ UNCHANGED <<sig, blk, obj, hvars>>
            [] f.o = "empty" ->
                 /\ stk' = IF live THEN Done(t, 0) ELSE SetTop(t, nxt)
                 /\ Off(IF Expired(c) THEN {c} ELSE {})
                 /\ UNCHANGED <<sig, blk, obj, hvars>>
            [] OTHER -> \* disconnections
                 /\ stk' = SetTop(t, nxt)
                 /\ Off({c})
                 /\ UNCHANGED <<sig, blk, obj, hvars>>

LinDisc(t, c) ==
  /\ Off({c} \cap DOMAIN con)
  /\ stk' = Done(t, 0)
  /\ UNCHANGED <<sig, blk, obj, hvars>>

LinConQuery(t, c, r) ==
  /\ Off(IF c > 0 /\ Expired(c) THEN {c} ELSE {})
  /\ stk' = Done(t, r)
  /\ UNCHANGED <<sig, blk, obj, hvars>>

LinConnected(t, c) ==
  \/ LinConQuery(t, c, IF c = 0 THEN 0 ELSE B2I(EffOn(c)))
  \/ IF c = 0 THEN FALSE ELSE MaybeOn(t, c) /\ LinConQuery(t, c, 1)
LinBlockedQ(t, c) ==
  \/ LinConQuery(t, c, IF c = 0 THEN 1 ELSE B2I(~EffOn(c) \/ Blocked(c)))
  \/ IF c = 0 THEN FALSE ELSE MaybeOn(t, c) /\ LinConQuery(t, c, B2I(Blocked(c)))

LinBlk(t, b, v) ==
  /\ blk' = [blk EXCEPT ![b] = v]
  /\ stk' = Done(t, 0)
  /\ UNCHANGED <<sig, imp, con, obj, hvars>>

LinODrop(t, a) ==
  /\ obj' = [obj EXCEPT ![a.ob].own = FALSE]
  /\ stk' = Done(t, 0)
  /\ UNCHANGED <<sig, imp, con, blk, hvars>>

(* connection objects *)
HC(k) == IF k = 0 THEN 0 ELSE hnd[k].c
Owned(k) == IF hnd[k].ty = "s" THEN {hnd[k].c} \cap DOMAIN con ELSE {}   \* what it must disconnect
LinHnd(t, hn, S) ==
  /\ hnd' = hn
  /\ Off(S)
  /\ stk' = Done(t, 0)
  /\ UNCHANGED <<sig, blk, obj, gone, ord>>

\* A connection that has been disconnected may cease to exist: connection objects then refer to
\* none.  It must be gone when its signal is, and nothing is going on.
MayGo(c) == con[c].st \in {"off", "dy"} \/ Expired(c)
MustGo(t, c) == con[c].st \in {"off", "dy"} /\ Depth(t) = 1 /\ Solo(t) /\ con[c].impl \in DOMAIN imp /\ ~imp[con[c].impl].alive
Eff(gn, c) == IF c \in gn THEN 0 ELSE c
LinHCmp(t, a) ==
  LET q == {HC(a.k), HC(a.j)} \ {0} IN
  \E G \in SUBSET (q \ gone) :
    LET gn == gone \cup G
        x == Eff(gn, HC(a.k))
        y == Eff(gn, HC(a.j))
        od == {p \in ord : p[1] \notin gn /\ p[2] \notin gn}
        close(u, v) == od \cup (({u} \cup {p[1] : p \in {p \in od : p[2] = u}}) \X ({v} \cup {p[2] : p \in {p \in od : p[1] = v}}))
    IN /\ \A c \in G : MayGo(c)
       /\ \A c \in q \ gn : ~MustGo(t, c)
       /\ gone' = gn
       /\ CASE a.o = "heq" -> ord' = od /\ stk' = Done(t, B2I(x = y))
            [] a.o = "hlt" /\ x = y -> ord' = od /\ stk' = Done(t, 0)
            [] a.o = "hlt" /\ <<x, y>> \in od -> ord' = od /\ stk' = Done(t, 1)
            [] a.o = "hlt" /\ <<y, x>> \in od -> ord' = od /\ stk' = Done(t, 0)
            [] OTHER -> \/ ord' = close(x, y) /\ stk' = Done(t, 1)
                        \/ ord' = close(y, x) /\ stk' = Done(t, 0)
       /\ UNCHANGED <<sig, imp, con, blk, obj, hnd>>

LinEmit(t, a) ==
  /\ sig[a.hd] > 0
  /\ stk' = [stk EXCEPT ![t] = Append(SubSeq(@, 1, Len(@) - 1) \o <<[Top(t) EXCEPT !.ph = "mid"]>>,
                                      EFrame(sig[a.hd], a.v, FALSE, Flt(a)))]
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

\* operations that may need memory; whatever they had done so far, as seen from outside, is nothing
\* (except that expired connections have been noticed)
MayFail == {"new", "setcomb", "combq", "num", "empty", "bnew", "bcopy", "bassign", "bblock", "connected", "blockedq", "hconn", "hblk", "emit"}
Fail(t) ==
  /\ TopIs(t, "O") /\ Top(t).ph \in {"pre", "mid"} /\ Flt(Top(t).a)
  /\ Top(t).o \in MayFail
  /\ FailOp(t, Top(t).a)

Lin(t) ==
  /\ TopIs(t, "O") /\ Top(t).ph = "pre"
  /\ LET a == Top(t).a o == Top(t).o IN
     CASE o = "new" -> LinNew(t, a)
       [] o = "del" -> LinDel(t, a)
       [] o = "move" -> LinMove(t, a)
       [] o = "massign" -> LinMAssign(t, a)
       [] o = "swap" -> LinSwap(t, a)
       [] o = "connect" -> LinConnect(t, a) \/ (IF Flt(a) THEN FailConnect(t, a) ELSE FALSE)
       [] o = "setcomb" -> LinSetComb(t, a)
       [] o = "combq" -> sig[a.hd] > 0 /\ LinQuery(t, imp[sig[a.hd]].comb)
       [] o = "null" -> LinQuery(t, B2I(sig[a.hd] = 0))
       [] o = "eqh" -> LinQuery(t, B2I(sig[a.hd] = sig[a.gd]))
       [] o \in {"num", "empty", "discAll"} -> LinScan(t, ListOf(a.hd))
       [] o = "discGrp" -> LinScan(t, SelectSeq(ListOf(a.hd),
                              LAMBDA c : KEquiv(imp[sig[a.hd]].cmp, con[c].key, <<1, a.g>>)))
       [] o = "discFn" -> LinScan(t, SelectSeq(ListOf(a.hd),
                              LAMBDA c : con[c].kind # "c" /\ con[c].fn = a.f))
       [] o = "discSig" -> LinScan(t, SelectSeq(ListOf(a.hd),
                              LAMBDA c : con[c].kind = "c" /\ con[c].fn <= 1 /\ sig[a.gd] > 0 /\ con[c].tgt = sig[a.gd]))
       [] o = "disc" -> LinDisc(t, a.c)
       [] o = "connected" -> LinConnected(t, a.c)
       [] o = "blockedq" -> LinBlockedQ(t, a.c)
       [] o = "bnew" -> LinBlk(t, a.b, [ex |-> TRUE, c |-> a.c, on |-> a.i = 1])
       [] o = "bcopy" -> LinBlk(t, a.b, blk[a.b2])
       [] o = "bassign" -> LinBlk(t, a.b, blk[a.b2])
       [] o = "bdel" -> LinBlk(t, a.b, [ex |-> FALSE, c |-> 0, on |-> FALSE])
       [] o = "bblock" -> LinBlk(t, a.b, [blk[a.b] EXCEPT !.on = TRUE])
       [] o = "bunblock" -> LinBlk(t, a.b, [blk[a.b] EXCEPT !.on = FALSE])
       [] o = "bblocking" -> LinQuery(t, B2I(blk[a.b].on))
       [] o \in {"onew", "ocopy"} -> LinQuery(t, 0)
       [] o = "odrop" -> LinODrop(t, a)
       [] o = "oassign" -> LinQuery(t, 0)
       [] o = "hnew" -> LinHnd(t, [hnd EXCEPT ![a.k] = [ty |-> a.kind, c |-> a.c]], {})
       [] o = "hset" -> LinHnd(t, [hnd EXCEPT ![a.k].c = a.c], Owned(a.k))
       [] o = "hcpy" -> LinHnd(t, [hnd EXCEPT ![a.k] = [ty |-> a.kind, c |-> HC(a.j)]], {})
       [] o = "hmov" -> LinHnd(t, [hnd EXCEPT ![a.k] = [ty |-> a.kind, c |-> HC(a.j)], ![a.j].c = 0], {})
       [] o = "has" -> LinHnd(t, [hnd EXCEPT ![a.k].c = HC(a.j)], Owned(a.k))
       [] o = "hmas" -> IF a.k = a.j THEN LinHnd(t, hnd, {})
                        ELSE LinHnd(t, [hnd EXCEPT ![a.k].c = HC(a.j), ![a.j].c = 0], Owned(a.k))
       [] o = "hswp" -> LinHnd(t, [hnd EXCEPT ![a.k].c = HC(a.j), ![a.j].c = HC(a.k)], {})
       [] o = "hdel" -> LinHnd(t, [hnd EXCEPT ![a.k] = NoHnd], Owned(a.k))
       [] o = "hrel" -> LinHnd(t, [[hnd EXCEPT ![a.k].c = 0] EXCEPT ![a.j] = [ty |-> "c", c |-> HC(a.k)]], {})
       [] o \in {"heq", "hlt"} -> LinHCmp(t, a)
       [] o = "hdisc" -> LinDisc(t, HC(a.k))
       [] o = "hconn" -> LinConnected(t, HC(a.k))
       [] o = "hblk" -> LinBlockedQ(t, HC(a.k))
       [] o = "emit" -> LinEmit(t, a)

MidStep(t) ==
  /\ TopIs(t, "O") /\ Top(t).ph = "mid" /\ Top(t).o # "emit"
  /\ IF Top(t).o = "massign" THEN MAssignStep(t, Top(t).a) ELSE ScanStep(t, Top(t).a)

EvRet(t, e) ==
  /\ TopIs(t, "O") /\ Top(t).ph = "done"
  /\ "ret" \notin Relax => e.r = Top(t).res /\ e.x = Top(t).exc
  /\ Quiet(t)
  /\ stk' = Pop(t)
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

-----------------------------------------------------------------------------
(* Emissions *)

\* the emission lets go of what it held for the last slot, at the latest when it examines the next
\* one or ends (the step matters only if it held the last reference to a signal)
LastRef(t) == Top(t).himp > 0 /\ ~ImplRef(sig, SetTop(t, [Top(t) EXCEPT !.himp = 0]), Top(t).himp)

\* Examine the slot at the current position (one critical section): lock its tracked
\* objects, notice expiry, select it if it is connected and not blocked.
Seek(t) ==
  /\ TopIs(t, "E") /\ Top(t).ph \in {"seek", "inc"}
  /\ Top(t).pos <= Len(Top(t).snap) => ~LastRef(t)
  /\ LET f == Top(t)
         found == IF f.ph = "seek" THEN "first" ELSE "incd" IN
     IF f.pos > Len(f.snap)
     THEN /\ stk' = SetTop(t, [f EXCEPT !.ph = found])
          /\ UNCHANGED <<con, imp>>
     ELSE LET c == f.snap[f.pos]
              sel == EffOn(c) /\ ~Blocked(c)
              there == con[c].st = "on" \/ Used(c)   \* the slot still exists
              hi == IF there /\ con[c].kind = "c" /\ imp[con[c].tgt].alive THEN con[c].tgt ELSE 0
              g == IF there THEN Grab(c) ELSE {}
              keep == sel \/ f.pos = Len(f.snap)
              nf == [f EXCEPT !.hold = IF keep THEN g ELSE {}, !.himp = IF keep THEN hi ELSE 0,
                              !.pos = IF sel THEN @ ELSE @ + 1,
                              !.ph = IF sel THEN found ELSE @]
              S == IF con[c].st = "on" /\ Expired(c) THEN {c} ELSE {}
          IN /\ stk' = SetTop(t, nf)
             /\ Settle(IF S = {} THEN con ELSE OffCon(con, S), IF S = {} THEN imp ELSE OffImp(imp, S), sig, stk')
  /\ UNCHANGED <<sig, blk, obj, hvars>>

DropHold(t) ==
  /\ TopIs(t, "E") /\ Top(t).ph \in {"inc", "fin"} /\ LastRef(t)
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.hold = {}, !.himp = 0])
  /\ Settle(con, imp, sig, stk')
  /\ UNCHANGED <<sig, blk, obj, hvars>>

\* an allocation of the library fails while it looks for the next slot: before the combiner is
\* entered the emission fails, later the increment throws and the sequence is not usable any more
FailSeek(t) ==
  /\ TopIs(t, "E") /\ Top(t).ph \in {"seek", "inc"} /\ Top(t).flt
  /\ LET f == Top(t) IN
     /\ stk' = SetTop(t, IF f.ph = "seek" THEN [f EXCEPT !.ph = "fin", !.val = <<0>>, !.exc = NOMEM, !.hold = {}, !.himp = 0]
                                          ELSE [f EXCEPT !.ph = "bad", !.hold = IF f.pos <= Len(f.snap) THEN Grab(f.snap[f.pos]) ELSE @])
     /\ Settle(con, imp, sig, stk')
  /\ UNCHANGED <<sig, blk, obj, hvars>>
FailDer(t) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "der" /\ Top(t).val = <<>> /\ Top(t).exc = 0 /\ Top(t).flt
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.exc = NOMEM])
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>
EvIncX(t, e) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "bad"
  /\ e.x = NOMEM
  /\ UNCHANGED vars

EvComb(t, e) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "first"
  /\ e.id = Top(t).comb
  /\ e.end = B2I(Top(t).pos > Len(Top(t).snap))
  /\ Quiet(t)
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.ph = "run"])
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

EvDeref(t, e) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "run" /\ Top(t).pos <= Len(Top(t).snap)
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.ph = "der"])
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

\* the slot function is entered
EvCall(t, e) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "der" /\ Top(t).val = <<>> /\ Top(t).exc = 0
  /\ LET c == Cur(Top(t)) IN
     /\ con[c].kind # "c"
     /\ e.c = c /\ e.v = Top(t).arg
     /\ con[c].kind = "x" => e.self = c
     /\ Quiet(t)
     /\ stk' = Push(t, [k |-> "C", c |-> c])
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

\* the slot is a signal
Chain(t) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "der" /\ Top(t).val = <<>> /\ Top(t).exc = 0
  /\ LET c == Cur(Top(t)) IN
     /\ con[c].kind = "c"
     /\ stk' = Push(t, EFrame(con[c].tgt, Top(t).arg, TRUE, Top(t).flt))
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

\* result or exception x of the current slot of the emission below the top frame
Deliver(st, t, v, x) ==
  LET n == Len(st[t]) - 1
      f == st[t][n]
  IN [st EXCEPT ![t] = SubSeq(@, 1, n - 1) \o
                       <<IF x = 0 THEN [f EXCEPT !.val = <<v>>] ELSE [f EXCEPT !.exc = x]>>]
BelowTop(t) == stk[t][Depth(t) - 1]

EvCRet(t, e) ==
  /\ TopIs(t, "C")
  /\ stk' = Deliver(stk, t, e.v, 0)
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

EvCThrow(t, e) ==
  /\ TopIs(t, "C")
  /\ stk' = Deliver(stk, t, 0, e.x)
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

\* the slot at the position has thrown expired_slot: it is disconnected before the exception goes on
MustDrop(f) == f.ph = "der" /\ f.exc = EXPIRED /\ con[Cur(f)].st = "on"
ExpDisc(t) ==
  /\ TopIs(t, "E") /\ MustDrop(Top(t))
  /\ Off({Cur(Top(t))})
  /\ UNCHANGED <<sig, blk, obj, stk, hvars>>

EvDerR(t, e) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "der" /\ Top(t).val # <<>>
  /\ e.v = Top(t).val[1]
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.ph = "run"])
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

EvDerX(t, e) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "der" /\ Top(t).exc # 0 /\ ~MustDrop(Top(t))
  /\ e.x = Top(t).exc
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.ph = "run", !.exc = 0])
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

EvInc(t, e) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "run" /\ Top(t).pos <= Len(Top(t).snap)
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.ph = "inc", !.pos = @ + 1])
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

EvIncR(t, e) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "incd"
  /\ e.end = B2I(Top(t).pos > Len(Top(t).snap))
  /\ Quiet(t)
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.ph = "run", !.val = <<>>])
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

\* the combiner returns e.v, or throws e.x; it is still the one that was entered
EvCEnd(t, e) ==
  /\ TopIs(t, "E") /\ (Top(t).ph = "run" \/ (Top(t).ph = "bad" /\ e.x # 0))
  /\ e.id = Top(t).comb
  /\ stk' = SetTop(t, [Top(t) EXCEPT !.ph = "fin", !.val = <<e.v>>, !.exc = e.x])
  /\ UNCHANGED <<sig, imp, con, blk, obj, hvars>>

Fin(t) ==
  /\ TopIs(t, "E") /\ Top(t).ph = "fin"
  /\ LET f == Top(t) IN
     IF f.chain
     THEN /\ stk' = Deliver(stk, t, f.val[1], f.exc)
          /\ Settle(con, imp, sig, stk')
     ELSE /\ stk' = [stk EXCEPT ![t] = SubSeq(@, 1, Depth(t) - 2) \o
                       <<[BelowTop(t) EXCEPT !.ph = "done", !.res = IF f.exc = 0 THEN f.val[1] ELSE 0, !.exc = f.exc]>>]
          /\ Settle(con, imp, sig, stk')
  /\ UNCHANGED <<sig, blk, obj, hvars>>

-----------------------------------------------------------------------------
(* Destructors *)

\* the library may be destroying something here
LibCtx(t) == Depth(t) > 0 /\ (Top(t).k = "O" \/ (Top(t).k = "E" /\ Top(t).ph # "run"))

EvSDtor(t, e) ==
  /\ LibCtx(t)
  /\ e.c \in DOMAIN con
  /\ con[e.c].fd = 0 /\ ~Used(e.c)
  /\ \/ con[e.c].st \in {"off", "dy"}
     \/ con[e.c].st = "on" /\ Expired(e.c)
  /\ stk' = Push(t, [k |-> "S", c |-> e.c])
  /\ LET cn == [con EXCEPT ![e.c].fd = 1] IN
     IF con[e.c].st = "on" THEN con' = OffCon(cn, {e.c}) /\ imp' = OffImp(imp, {e.c})
                           ELSE con' = cn /\ UNCHANGED imp
  /\ UNCHANGED <<sig, blk, obj, hvars>>

EvSDtorE(t, e) ==
  /\ TopIs(t, "S")
  /\ con' = [con EXCEPT ![Top(t).c].fd = 2]
  /\ stk' = Pop(t)
  /\ UNCHANGED <<sig, imp, blk, obj, hvars>>

EvODtor(t, e) ==
  /\ LibCtx(t)
  /\ e.ob \in DOMAIN obj
  /\ obj[e.ob].st \in {"live", "exp"} /\ ~obj[e.ob].own
  /\ obj[e.ob].kind # "t" => ~Strong(e.ob)
  /\ obj' = [obj EXCEPT ![e.ob].st = "dying"]
  /\ stk' = Push(t, [k |-> "D", ob |-> e.ob])
  /\ UNCHANGED <<sig, imp, con, blk, hvars>>

EvODtorE(t, e) ==
  /\ TopIs(t, "D")
  /\ obj' = [obj EXCEPT ![Top(t).ob].st = "dead"]
  /\ stk' = Pop(t)
  /\ UNCHANGED <<sig, imp, con, blk, hvars>>

\* several threads: other threads see the expiry before the destructor is entered
ExpireO(o) ==
  /\ Cardinality(Threads) > 1
  /\ obj[o].st = "live" /\ ~obj[o].own /\ obj[o].kind # "t" /\ ~Strong(o)
  /\ obj' = [obj EXCEPT ![o].st = "exp"]
  /\ UNCHANGED <<sig, imp, con, blk, hvars, stk>>

\* the program ends: everything has been released
EvEnd ==
  /\ \A t \in Threads : stk[t] = <<>>
  /\ \A h \in 1..NH : sig[h] = -1
  /\ \A c \in DOMAIN con : con[c].fd = 2
  /\ \A o \in DOMAIN obj : obj[o].st = "dead"
  /\ UNCHANGED vars

Silent == \/ \E t \in Threads : Lin(t) \/ Fail(t) \/ MidStep(t) \/ Seek(t) \/ FailSeek(t) \/ FailDer(t) \/ ExpDisc(t) \/ DropHold(t) \/ Chain(t) \/ Fin(t)
          \/ \E o \in DOMAIN obj : ExpireO(o)
          \/ Reap

-----------------------------------------------------------------------------
(* Invariants *)

IndexOf(s, x) == CHOOSE j \in DOMAIN s : s[j] = x
InSeq(s, x) == \E j \in DOMAIN s : s[j] = x

\* connected slots, and only they, are listed, once, in the order of their groups
ListInv ==
  \A i \in DOMAIN imp :
    LET l == imp[i].list IN
    /\ \A j \in DOMAIN l : con[l[j]].st = "on" /\ con[l[j]].impl = i
    /\ \A j, m \in DOMAIN l : j < m => /\ l[j] # l[m]
                                       /\ ~KLess(imp[i].cmp, con[l[m]].key, con[l[j]].key)
    /\ \A c \in DOMAIN con : (con[c].st = "on" /\ con[c].impl = i) => InSeq(l, c)
\* a slot function being executed exists, and so do the objects it tracks
ExecInv ==
  \A t \in Threads : \A j \in 1..Len(stk[t]) :
    stk[t][j].k = "C" =>
      LET c == stk[t][j].c IN
      /\ con[c].fd = 0
      /\ \A m \in DOMAIN con[c].trk : obj[con[c].trk[m]].kind # "t" => obj[con[c].trk[m]].st = "live"
\* an emission refers only to connections made before it started
SnapInv ==
  \A t \in Threads : \A j \in 1..Len(stk[t]) :
    stk[t][j].k = "E" => /\ \A m \in DOMAIN stk[t][j].snap : stk[t][j].snap[m] \in DOMAIN con
                         /\ imp[stk[t][j].i].alive
DeadInv == \A c \in DOMAIN con : con[c].fd > 0 /\ con[c].kind # "c" => con[c].st # "on"
SigInv == \A h \in 1..NH : sig[h] > 0 => imp[sig[h]].alive /\ \A g \in 1..NH : g # h => sig[g] # sig[h]
\* disconnection is final (action property)
Final == [][\A c \in DOMAIN con : con[c].st \in {"off", "dy"} => con'[c].st = con[c].st]_vars
=============================================================================
