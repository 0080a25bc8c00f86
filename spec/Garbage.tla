------------------------------ MODULE Garbage ------------------------------
(***************************************************************************)
(* What a signal retains over long histories: connects, disconnects,       *)
(* expiries and emissions, single or as a pattern repeated many times.     *)
(* The specification follows which slots are connected and in which order, *)
(* predicts the calls of every emission, and bounds the number of dead     *)
(* connections retained at any time by the greatest number of live ones.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, C          \* dead connections retained <= K * peak + C
VARIABLES
  cap,    \* most live connections the history has; 0 before it begins
  live,   \* connected slots in order: [id, z, tr]; z: 0 front, 1 in the middle, 2 back; tr: tracks an object
  all,    \* every identity ever connected at an explicit place, in order
  peak,   \* greatest number of live connections so far
  nid,    \* last identity used
  op
vars == <<cap, live, all, peak, nid, op>>
Idle == [ph |-> "none"]
Init == cap = 0 /\ live = <<>> /\ all = <<>> /\ peak = 0 /\ nid = 0 /\ op = Idle
Max(a, b) == IF a > b THEN a ELSE b
Ids(l) == [i \in DOMAIN l |-> l[i].id]
At(s, x) == CHOOSE i \in DOMAIN s : s[i] = x
Without(l, id) == SelectSeq(l, LAMBDA e : e.id # id)
InsAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))    \* x becomes number i
\* ---- patterns
N(l, z) == Cardinality({i \in DOMAIN l : l[i].z <= z})
Oldest(l) == CHOOSE x \in {l[i].id : i \in DOMAIN l} : \A i \in DOMAIN l : x <= l[i].id
Newest(l) == CHOOSE x \in {l[i].id : i \in DOMAIN l} : \A i \in DOMAIN l : x >= l[i].id
Tracked(l) == SelectSeq(l, LAMBDA e : e.tr = 1)
Step(st, code) ==   \* st: [l, nid, peak, calls]
  LET l == st.l n == st.nid + 1
      con(i, z, tr) == IF Len(l) >= cap THEN st ELSE [st EXCEPT !.l = InsAt(l, i, [id |-> n, z |-> z, tr |-> tr]), !.nid = n, !.peak = Max(@, Len(l) + 1)]
      del(id) == [st EXCEPT !.l = Without(l, id)]
  IN CASE code = 1 -> con(Len(l) + 1, 2, 0)
       [] code = 2 -> con(1, 0, 0)
       [] code = 3 -> con(N(l, 1) + 1, 1, 0)
       [] code = 4 -> con(N(l, 0) + 1, 1, 0)
       [] code = 5 -> con(Len(l) + 1, 2, 1)
       [] code = 6 -> IF l = <<>> THEN st ELSE con(Len(l) + 1, 2, 0)       \* connected by the first slot, in an emission
       [] code = 7 -> con(1, 0, 1)
       [] code = 11 -> IF l = <<>> THEN st ELSE del(Oldest(l))
       [] code = 12 -> IF l = <<>> THEN st ELSE del(Newest(l))
       [] code = 13 -> IF l = <<>> THEN st ELSE del(l[1].id)
       [] code = 14 -> IF l = <<>> THEN st ELSE del(l[Len(l)].id)
       [] code = 15 -> [st EXCEPT !.l = <<>>]
       [] code = 16 -> [st EXCEPT !.l = SelectSeq(l, LAMBDA e : e.z # 1)]
       [] code = 17 -> IF Tracked(l) = <<>> THEN st ELSE del(Oldest(Tracked(l)))
       [] code = 18 -> IF l = <<>> THEN st ELSE del(l[1].id)            \* disconnects itself when called
       [] code \in {21, 22, 23, 24, 25} -> st
RECURSIVE Word(_, _, _)
Word(st, w, i) == IF i > Len(w) THEN st ELSE Word(Step(st, w[i]), w, i + 1)

Ret(calls) == [ph |-> "ret", calls |-> calls]
Place(e) == IF e.after = 0 THEN 1 ELSE At(all, e.after) + 1
\* the slot connected right after E.after (which may be dead): its place among the living
NewAll(e) == InsAt(all, Place(e), e.sid)
Rank(a, l, id) == Cardinality({i \in DOMAIN l : At(a, l[i].id) < At(a, id)}) + 1
Con(e, calls) ==
  /\ e.sid = nid + 1 /\ Len(live) < cap /\ (e.after = 0 \/ \E i \in DOMAIN all : all[i] = e.after)
  /\ all' = NewAll(e) /\ live' = InsAt(live, Rank(NewAll(e), live, e.sid), [id |-> e.sid, z |-> 1, tr |-> e.tr])
  /\ nid' = e.sid /\ peak' = Max(peak, Len(live) + 1) /\ op' = Ret(calls) /\ UNCHANGED cap
EvOp(e) ==
  /\ op.ph = "none"
  /\ CASE e.o = "begin" -> cap = 0 /\ cap' = e.cap /\ op' = Ret(<<>>) /\ UNCHANGED <<live, all, peak, nid>>
       [] e.o = "con" -> Con(e, <<>>)
       [] e.o = "emcon" -> live # <<>> /\ Con(e, Ids(live))
       [] e.o \in {"dis", "exp"} -> live' = Without(live, e.sid) /\ op' = Ret(<<>>) /\ UNCHANGED <<cap, all, peak, nid>>
       [] e.o = "em" -> op' = Ret(Ids(live)) /\ UNCHANGED <<cap, live, all, peak, nid>>
       [] e.o = "em1" -> op' = Ret(IF live = <<>> THEN <<>> ELSE <<live[1].id>>) /\ UNCHANGED <<cap, live, all, peak, nid>>
       [] e.o = "rep" -> all = <<>> /\ op' = [ph |-> "rep", w |-> e.w, n |-> e.n, fin |-> e.fin] /\ UNCHANGED <<cap, live, all, peak, nid>>
\* one repetition of the pattern
RepStep ==
  /\ op.ph = "rep"
  /\ IF op.n = 0 THEN op' = Ret(IF op.fin = 1 THEN Ids(live) ELSE <<>>) /\ UNCHANGED <<live, peak, nid>>
     ELSE LET st == Word([l |-> live, nid |-> nid, peak |-> peak], op.w, 1) IN
          live' = st.l /\ nid' = st.nid /\ peak' = st.peak /\ op' = [op EXCEPT !.n = @ - 1]
  /\ UNCHANGED <<cap, all>>
\* mx: most dead connections retained at any moment of the operation
EvRet(e) ==
  /\ op.ph = "ret" /\ e.a = op.calls /\ e.mx <= K * peak + C
  /\ op' = Idle /\ UNCHANGED <<cap, live, all, peak, nid>>
EvEnd == op.ph = "none" /\ UNCHANGED vars
=============================================================================
