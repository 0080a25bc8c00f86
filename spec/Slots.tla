------------------------------- MODULE Slots -------------------------------
(***************************************************************************)
(* Slot objects: their function (with its own state), what they track,     *)
(* expired(), lock(), direct calls, copies, conversions, and the slot they *)
(* become when connected.  Objects: "b" owned by boost::shared_ptr, "s" by *)
(* std::shared_ptr, "f" by a shared pointer the library does not know      *)
(* about (and whose operations let others give up what they own), "t"      *)
(* trackable (bound), "g" a signal.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NSL, NL    \* slots, held lock() results
VARIABLES
  obj,  \* sequence of [kind, own, st, n]: n counts the calls of the function connected to a signal
  slt,  \* [1..NSL -> [fn, n, trk]]; fn = 0: no such slot; fn = 100 + o: the slot invokes signal o
  lck,  \* [1..NL -> set of objects held; {0}: none]
  op    \* operation in progress
vars == <<obj, slt, lck, op>>

EXPIRED == 99
None == [fn |-> 0, n |-> 0, trk |-> <<>>]
Idle == [ph |-> "none"]
Init == obj = <<>> /\ slt = [k \in 1..NSL |-> None] /\ lck = [m \in 1..NL |-> {0}] /\ op = Idle

Held(o) == \/ \E m \in 1..NL : o \in lck[m]
           \/ op.ph \in {"call", "in", "out"} /\ o \in op.hold
\* expired: a trackable when its destructor has run, others when nobody owns or holds them
Alive(o) == obj[o].st = "live" /\ (obj[o].own \/ (obj[o].kind # "t" /\ Held(o)))
Exp(s) == \E j \in DOMAIN s.trk : ~Alive(s.trk[j])
Hold(s) == {s.trk[j] : j \in {j \in DOMAIN s.trk : obj[s.trk[j]].kind # "t"}}
\* nothing that must be gone is still there
Prompt == \A o \in DOMAIN obj : obj[o].st = "live" => Alive(o)

Done(r, x) == [ph |-> "ret", r |-> r, x |-> x, fd |-> 0]
Fd(e) == IF "fd" \in DOMAIN e THEN e.fd ELSE 0
Stay(r) == op' = Done(r, 0) /\ UNCHANGED <<obj, slt, lck>>
Calls(s, v, hold) == [ph |-> "call", fn |-> s.fn, n |-> IF s.fn > 100 THEN obj[s.fn - 100].n ELSE s.n, v |-> v, hold |-> hold]

EvOp(e) ==
  /\ op.ph = "none" /\ Prompt
  /\ CASE e.o = "onew" -> obj' = Append(obj, [kind |-> e.kind, own |-> TRUE, st |-> "live", n |-> 0]) /\ op' = Done(0, 0) /\ UNCHANGED <<slt, lck>>
       [] e.o = "odrop" -> obj' = [obj EXCEPT ![e.ob].own = FALSE] /\ op' = Done(0, 0) /\ UNCHANGED <<slt, lck>>
       \* a new slot: of a function, of a function bound to a trackable, of a signal
       [] e.o = "snew" -> /\ slt' = [slt EXCEPT ![e.k] = [fn |-> IF e.kind = "g" THEN 100 + e.ob ELSE e.f, n |-> 0, trk |-> IF e.ob = 0 THEN <<>> ELSE <<e.ob>>]]
                          /\ op' = Done(0, 0) /\ UNCHANGED <<obj, lck>>
       [] e.o \in {"scopy", "sassign"} -> slt' = [slt EXCEPT ![e.k] = slt[e.j]] /\ op' = Done(0, 0) /\ UNCHANGED <<obj, lck>>
       [] e.o = "sdel" -> slt' = [slt EXCEPT ![e.k] = None] /\ op' = Done(0, 0) /\ UNCHANGED <<obj, lck>>
       [] e.o = "track" -> slt' = [slt EXCEPT ![e.k].trk = Append(@, e.ob)] /\ op' = Done(0, 0) /\ UNCHANGED <<obj, lck>>
       [] e.o = "tracks" -> slt' = [slt EXCEPT ![e.k].trk = @ \o slt[e.j].trk] /\ op' = Done(0, 0) /\ UNCHANGED <<obj, lck>>
       [] e.o = "ntrk" -> Stay(Len(slt[e.k].trk))
       [] e.o \in {"expired", "lock"} -> op' = [ph |-> "pre", e |-> e, fd |-> Fd(e)] /\ UNCHANGED <<obj, slt, lck>>
       [] e.o = "unlock" -> lck' = [lck EXCEPT ![e.m] = {0}] /\ op' = Done(0, 0) /\ UNCHANGED <<obj, slt>>
       \* the slot is called directly
       [] e.o = "call" -> op' = [ph |-> "pre", e |-> e, fd |-> Fd(e)] /\ UNCHANGED <<obj, slt, lck>>
       \* it is connected to a signal, which is then invoked; r: number of slots before
       [] e.o = "become" -> /\ op' = IF Exp(slt[e.k]) THEN Done(-1, 0) ELSE Calls(slt[e.k], e.v, Hold(slt[e.k])) @@ [k |-> 0, dr |-> e.dr, x |-> e.x, fd |-> 0]
                            /\ UNCHANGED <<obj, slt, lck>>

\* what is tracked is looked at, or locked, all at once
Look ==
  /\ op.ph = "pre" /\ Prompt
  /\ LET e == op.e s == slt[op.e.k] IN
     CASE e.o = "expired" -> op' = [Done(IF Exp(s) THEN 1 ELSE 0, 0) EXCEPT !.fd = op.fd] /\ UNCHANGED lck
       [] Exp(s) -> op' = [Done(0, EXPIRED) EXCEPT !.fd = op.fd] /\ UNCHANGED lck
       [] e.o = "lock" -> lck' = [lck EXCEPT ![e.m] = Hold(s)] /\ op' = [Done(0, 0) EXCEPT !.fd = op.fd]
       [] OTHER -> op' = Calls(s, e.v, Hold(s)) @@ [k |-> e.k, dr |-> e.dr, x |-> e.x, fd |-> op.fd] /\ UNCHANGED lck
  /\ UNCHANGED <<obj, slt>>
\* meanwhile, the last owner of an object gives it up
EvFDrop(e) ==
  /\ op.ph # "none" /\ op.fd = e.ob
  /\ obj' = [obj EXCEPT ![e.ob].own = FALSE]
  /\ op' = [op EXCEPT !.fd = 0]
  /\ UNCHANGED <<slt, lck>>

\* the function is entered with its state and the argument
EvCall(e) ==
  /\ op.ph = "call"
  /\ e.fn = op.fn /\ e.n = op.n /\ e.v = op.v
  /\ op' = [op EXCEPT !.ph = "in"]
  /\ IF op.fn > 100 THEN obj' = [obj EXCEPT ![op.fn - 100].n = @ + 1] /\ UNCHANGED slt
     ELSE /\ UNCHANGED obj
          /\ slt' = IF op.k = 0 THEN slt ELSE [slt EXCEPT ![op.k].n = @ + 1]
  /\ UNCHANGED lck
\* inside the call, the last owner of an object gives it up
EvDrop(e) ==
  /\ op.ph = "in" /\ op.dr = e.ob
  /\ obj' = [obj EXCEPT ![e.ob].own = FALSE]
  /\ op' = [op EXCEPT !.dr = 0]
  /\ UNCHANGED <<slt, lck>>
\* its function returns (the argument plus its identity) or throws
EvCRet(e) ==
  /\ op.ph = "in" /\ op.dr = 0 /\ Prompt
  /\ e.x = op.x
  /\ op' = [op EXCEPT !.ph = "out"]
  /\ UNCHANGED <<obj, slt, lck>>
Release ==
  /\ op.ph = "out"
  /\ op' = Done(IF op.x = 0 THEN op.v + op.fn ELSE 0, op.x)
  /\ UNCHANGED <<obj, slt, lck>>
EvODtor(e) ==
  /\ e.ob \in DOMAIN obj
  /\ obj[e.ob].st = "live" /\ ~Alive(e.ob)
  /\ obj' = [obj EXCEPT ![e.ob].st = "dead"]
  /\ UNCHANGED <<slt, lck, op>>
EvRet(e) ==
  /\ op.ph = "ret" /\ Prompt
  /\ e.r = op.r /\ e.x = op.x
  /\ op' = Idle
  /\ UNCHANGED <<obj, slt, lck>>
EvEnd == op.ph = "none" /\ (\A o \in DOMAIN obj : obj[o].st = "dead") /\ UNCHANGED vars
=============================================================================
