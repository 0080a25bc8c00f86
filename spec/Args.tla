-------------------------------- MODULE Args --------------------------------
(***************************************************************************)
(* What the slots of an emission are given and what comes back, for        *)
(* signatures of every arity with parameters by value (V), reference (R),  *)
(* const reference (C) and pointer (P).  An outer signal may have plain    *)
(* and extended slots and the inner signal as a slot; slots may also be    *)
(* called directly.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences
VARIABLES
  kinds, \* sequence of parameter kinds; <<"none">> before it is chosen
  out, in,   \* slots of the outer and the inner signal: [id, w, r, x]; id 0: the inner signal
  op
vars == <<kinds, out, in, op>>

Sigs == <<  <<>>, <<"V">>, <<"R">>, <<"C">>, <<"P">>, <<"V", "R">>, <<"R", "V">>, <<"V", "V">>, <<"C", "R", "V">>,
            <<"V", "R", "V", "R">>, <<"R", "R", "R", "R", "R">>, <<"V", "C", "R", "P", "V", "R">>,
            <<"V", "V", "V", "V", "V", "V", "V">>, <<"R", "V", "C", "P", "R", "V", "C", "P">>,
            <<"V", "R", "V", "R", "V", "R", "V", "R", "V">>, <<"V", "R", "C", "P", "V", "R", "C", "P", "V", "R">> >>
Idle == [ph |-> "none"]
Init == kinds = <<"none">> /\ out = <<>> /\ in = <<>> /\ op = Idle
Ready == kinds # <<"none">> /\ op.ph = "none"
Fold(a, r) == (a * 7 + r) % 10007

Ins(l, n, fr) == IF fr = 1 THEN <<n>> \o l ELSE Append(l, n)
RECURSIVE Flat(_)
Flat(l) == IF l = <<>> THEN <<>>
           ELSE (IF Head(l).id = 0 THEN [j \in 1..Len(in) |-> [in[j] EXCEPT !.lv = 1]] \o <<[Head(l) EXCEPT !.lv = 2]>> ELSE <<Head(l)>>) \o Flat(Tail(l))
Node(e) == [id |-> e.sid, w |-> e.w, r |-> e.r, x |-> e.x, lv |-> 0]
\* a: the values the caller has given; var: the caller's objects as they are now
Run(q, a, direct) == [ph |-> "run", q |-> q, a |-> a, var |-> a, acc |-> 1, iacc |-> 1, direct |-> direct]
Done == [ph |-> "ret", r |-> 0, x |-> 0, var |-> <<>>]

EvOp(e) ==
  CASE e.o = "begin" -> kinds = <<"none">> /\ kinds' = Sigs[e.cf + 1] /\ op' = Done /\ UNCHANGED <<out, in>>
    [] e.o = "connect" -> /\ Ready /\ op' = Done /\ UNCHANGED kinds
                          /\ IF e.to = 0 THEN out' = Ins(out, Node(e), e.fr) /\ UNCHANGED in ELSE in' = Ins(in, Node(e), e.fr) /\ UNCHANGED out
    [] e.o = "chain" -> Ready /\ out' = Ins(out, [id |-> 0, w |-> 0, r |-> 0, x |-> 0, lv |-> 0], e.fr) /\ op' = Done /\ UNCHANGED <<kinds, in>>
    [] e.o = "emit" -> Ready /\ op' = Run(Flat(out), e.a, FALSE) /\ UNCHANGED <<kinds, out, in>>
    [] e.o = "direct" -> Ready /\ op' = Run(<<Node(e)>>, e.a, TRUE) /\ UNCHANGED <<kinds, out, in>>

\* the slot sees values as the caller gave them, and the caller's own objects (ok) behind references
Seen == [j \in 1..Len(kinds) |-> IF kinds[j] = "V" THEN op.a[j] ELSE op.var[j]]
EvCall(e) ==
  /\ op.ph = "run" /\ op.q # <<>> /\ Head(op.q).lv # 2
  /\ LET s == Head(op.q)
         nv == [j \in 1..Len(kinds) |-> IF kinds[j] \in {"R", "P"} THEN op.var[j] + s.w ELSE op.var[j]]
     IN /\ e.id = s.id
        /\ e.a = Seen
        /\ e.ok = 1
        /\ IF s.x # 0 THEN op' = [ph |-> "ret", r |-> 0, x |-> s.x, var |-> nv]
           ELSE op' = [op EXCEPT !.q = Tail(@), !.var = nv,
                                 !.acc = IF op.direct THEN s.r ELSE IF s.lv = 0 THEN Fold(@, s.r) ELSE @,
                                 !.iacc = IF s.lv = 1 THEN Fold(@, s.r) ELSE @]
  /\ UNCHANGED <<kinds, out, in>>
\* the inner emission ends: its combiner's result is the result of the slot
InnerEnd ==
  /\ op.ph = "run" /\ op.q # <<>> /\ Head(op.q).lv = 2
  /\ op' = [op EXCEPT !.q = Tail(@), !.acc = Fold(@, op.iacc), !.iacc = 1]
  /\ UNCHANGED <<kinds, out, in>>
EvRet(e) ==
  /\ \/ op.ph = "ret" /\ e.r = op.r /\ e.x = op.x /\ e.a = op.var
     \/ op.ph = "run" /\ op.q = <<>> /\ e.r = op.acc /\ e.x = 0 /\ e.a = op.var
  /\ op' = Idle
  /\ UNCHANGED <<kinds, out, in>>
EvEnd == op.ph = "none" /\ UNCHANGED vars
=============================================================================
