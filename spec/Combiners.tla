------------------------------ MODULE Combiners ------------------------------
(***************************************************************************)
(* The combiners of the library: optional_last_value and last_value, for   *)
(* values, references and void, used by a signal or called directly with a *)
(* range whose iterators run the functions.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences

VARIABLES
  cb,     \* the combiner in use [opt, void, sig]
  slots,  \* what each slot does: <<"v", value>> or <<"x", exception>>
  run     \* the emission in progress
vars == <<cb, slots, run>>

EXPIRED == {99, 61}   \* exceptions that are an expired_slot (61: of a derived class); 60 is bad_weak_ptr, the base class of expired_slot
NOSLOTS == 55   \* exception no_slots_error

\* configurations of harness/combiners.cpp: optional_last_value?, void?, used by a signal?
\* 14 and more: a combiner that does what it is told
Configs == [k \in 0..20 |-> [opt  |-> IF k >= 14 THEN "told" ELSE IF k \in {0, 2, 4, 6, 8, 10, 12, 13} THEN "yes" ELSE "no",
                             void |-> k \in {2, 3, 10, 11, 15},
                             mv   |-> k \in {14, 18}, cp |-> k \notin 16..18,   \* are there actions "move", "post"
                             sig  |-> k \notin {8, 9, 10, 11}]]

NoCb == [opt |-> "none"]
NoRun == [ph |-> "none"]
Init == cb = NoCb /\ slots = <<>> /\ run = NoRun
Idle == [ph |-> "idle"]
Busy == run.ph # "none"

Begin(e) == cb.opt = "none" /\ run.ph = "none" /\ cb' = Configs[e.cf] /\ run' = [ph |-> "ret", k |-> "done", v |-> 0] /\ UNCHANGED slots
Connect(e) ==
  /\ cb.opt # "none" /\ run.ph = "none"
  /\ slots' = IF e.fr = 1 THEN <<[k |-> e.kind, v |-> e.v, id |-> e.sid]>> \o slots ELSE Append(slots, [k |-> e.kind, v |-> e.v, id |-> e.sid])
  /\ run' = [ph |-> "ret", k |-> "done", v |-> 0]
  /\ UNCHANGED cb
Num(e) == cb.opt # "none" /\ run.ph = "none" /\ run' = [ph |-> "ret", k |-> "done", v |-> Len(slots)] /\ UNCHANGED <<cb, slots>>
Emit(e) == /\ cb.opt # "none" /\ run.ph = "none"
           /\ run' = IF cb.opt = "told" THEN [ph |-> "comb", snap |-> slots, pos |-> 1, val |-> <<>>, x |-> 0, a |-> "none"]
                                        ELSE [ph |-> "slots", pos |-> 1, last |-> <<>>]
           /\ UNCHANGED <<cb, slots>>

\* what the combiner returns when all slots have been called
Result(last) ==
  IF cb.void THEN [ph |-> "ret", k |-> "void", v |-> 0]
  ELSE IF last # <<>> THEN [ph |-> "ret", k |-> "val", v |-> last[1]]
  ELSE IF cb.opt = "yes" THEN [ph |-> "ret", k |-> "none", v |-> 0]
  ELSE [ph |-> "ret", k |-> "exc", v |-> NOSLOTS]

\* a slot is called, in order
Call(e) ==
  /\ run.ph # "none"
  /\ run.ph = "slots" /\ run.pos <= Len(slots)
  /\ LET s == slots[run.pos] IN
     /\ e.id = s.id
     /\ CASE s.k = "v" -> run' = [run EXCEPT !.pos = @ + 1, !.last = <<s.v>>] /\ UNCHANGED slots
          \* an expired slot is passed over and, in a signal, disconnected
          [] s.k = "x" /\ s.v \in EXPIRED ->
               IF cb.sig THEN slots' = SubSeq(slots, 1, run.pos - 1) \o SubSeq(slots, run.pos + 1, Len(slots)) /\ UNCHANGED run
                         ELSE run' = [run EXCEPT !.pos = @ + 1] /\ UNCHANGED slots
          [] OTHER -> run' = [ph |-> "ret", k |-> "exc", v |-> s.v] /\ UNCHANGED slots
  /\ UNCHANGED cb

(* A combiner steps through the sequence of the slots, in which each slot is called when its        *)
(* position is first dereferenced; the result stays until the next step.  A slot that throws has no *)
(* result, and is called again if its position is dereferenced again.                               *)
B2I(b) == IF b THEN 1 ELSE 0
AtEnd == run.pos > Len(run.snap)
Do(e) ==
  /\ run.ph # "none"
  /\ run.ph = "comb" /\ e.end = B2I(AtEnd)
  /\ run' = CASE e.a \in {"take", "move", "let"} -> [run EXCEPT !.a = e.a, !.ph = IF run.val = <<>> THEN "der" ELSE "res"]
              [] e.a = "post" /\ run.val = <<>> -> [run EXCEPT !.a = e.a, !.ph = "der"]   \* the slot is called for the value of i++
              [] e.a \in {"post", "step"} -> [run EXCEPT !.pos = @ + 1, !.val = <<>>]
              [] e.a = "stop" -> [ph |-> "ret", k |-> "val", v |-> 5]
              [] e.a = "throw" -> [ph |-> "ret", k |-> "exc", v |-> 7]
  /\ (e.a \in {"take", "move", "let", "post", "step"} => ~AtEnd)
  /\ UNCHANGED <<cb, slots>>
Drop(id) == SelectSeq(slots, LAMBDA s : s.id # id)
CallTold(e) ==
  /\ run.ph # "none"
  /\ run.ph = "der"
  /\ LET s == run.snap[run.pos] IN
     /\ e.id = s.id
     /\ slots' = IF s.k = "x" /\ s.v \in EXPIRED THEN Drop(s.id) ELSE slots
     /\ run' = CASE s.k = "v" /\ run.a = "post" -> [run EXCEPT !.ph = "comb", !.pos = @ + 1, !.val = <<>>]
                 [] s.k = "v" -> [run EXCEPT !.ph = "res", !.val = <<IF cb.void THEN 0 ELSE s.v>>]
                 [] run.a \in {"let", "post"} -> [ph |-> "ret", k |-> "exc", v |-> s.v]     \* not caught by the combiner
                 [] OTHER -> [run EXCEPT !.ph = "exc", !.x = s.v]
  /\ UNCHANGED cb
Got(e) ==
  /\ run.ph # "none"
  /\ run.ph = "res" /\ e.v = run.val[1]
  /\ run' = [run EXCEPT !.ph = "comb", !.val = IF run.a = "move" THEN <<-1>> ELSE @]     \* what the combiner moved from is still the result
  /\ UNCHANGED <<cb, slots>>
GotX(e) ==
  /\ run.ph # "none"
  /\ run.ph = "exc" /\ e.v = run.x
  /\ run' = [run EXCEPT !.ph = "comb"]
  /\ UNCHANGED <<cb, slots>>
Ret(e) ==
  /\ run.ph # "none"
  /\ LET r == IF run.ph = "slots" /\ run.pos > Len(slots) THEN Result(run.last) ELSE run IN
     /\ r.ph = "ret" /\ e.k = r.k /\ e.v = r.v
  /\ run' = NoRun
  /\ UNCHANGED <<cb, slots>>

Op(e) == CASE e.o = "begin" -> Begin(e) [] e.o = "connect" -> Connect(e) [] e.o = "num" -> Num(e) [] e.o = "emit" -> Emit(e)
=============================================================================
