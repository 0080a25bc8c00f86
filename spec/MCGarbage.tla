------------------------------ MODULE MCGarbage ------------------------------
(***************************************************************************)
(* Histories for the real code, chosen with the clean-up algorithm         *)
(* (GarbageImpl) in view: histories under which a weakened algorithm       *)
(* retains ever more, though the actual one does not.                      *)
(*   words: all patterns of length <= MaxLen, each repeated, on every      *)
(*          variant; those that make some variant grow are written out     *)
(*   adv:   an adversary against clean-up of Adv entries per connect,      *)
(*          connecting just behind the collector and disconnecting what    *)
(*          it has passed                                                  *)
(*   early: emissions that stop at once move the collector past entries    *)
(*          whose tracked objects have died                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Mode, P, MaxLen, MaxOps, Adv, Codes, Variants
VARIABLES st, path, n
View == <<st, n>>
S(k, v) == " " \o k \o "=" \o ToString(v)
\* st: [l: entries [id, s, z], gc, nid]; v: variant of the algorithm
Good == [chk |-> 3, grab |-> TRUE, egrab |-> TRUE, restart |-> TRUE, reset |-> FALSE, jan |-> TRUE, echk |-> 1]
Var(name) == CASE name = "chk1" -> [Good EXCEPT !.chk = 1] [] name = "chk2" -> [Good EXCEPT !.chk = 2]
                [] name = "nochk" -> [Good EXCEPT !.chk = 0] [] name = "nograb" -> [Good EXCEPT !.grab = FALSE] [] name = "noegrab" -> [Good EXCEPT !.egrab = FALSE]
                [] name = "norestart" -> [Good EXCEPT !.restart = FALSE] [] name = "reset" -> [Good EXCEPT !.reset = TRUE]
                [] name = "nojan" -> [Good EXCEPT !.jan = FALSE] [] name = "noechk" -> [Good EXCEPT !.echk = 0]
                [] name = "lazy" -> [Good EXCEPT !.echk = 0, !.jan = FALSE] [] name = "good" -> Good
Live(l) == SelectSeq(l, LAMBDA e : e.s = "L")
RECURSIVE Sweep(_, _, _, _)
Sweep(l, i, k, grab) ==
  IF k = 0 \/ i > Len(l) THEN [l |-> l, i |-> i]
  ELSE IF l[i].s = "D" \/ (l[i].s = "E" /\ grab) THEN Sweep(SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l)), i, k - 1, grab)
  ELSE Sweep(l, i + 1, k - 1, grab)
From(s, v) == IF s.gc > Len(s.l) THEN (IF v.restart THEN 1 ELSE s.gc) ELSE IF v.reset THEN 1 ELSE s.gc
Pos(l, z, front) == IF front THEN Cardinality({i \in DOMAIN l : l[i].z < z}) + 1 ELSE Cardinality({i \in DOMAIN l : l[i].z <= z}) + 1
Insert(s, sw, i, z, tr) == [s EXCEPT !.l = SubSeq(sw.l, 1, i - 1) \o <<[id |-> s.nid + 1, s |-> "L", z |-> z, tr |-> tr]>> \o SubSeq(sw.l, i, Len(sw.l)),
                            !.gc = IF i <= sw.i THEN sw.i + 1 ELSE sw.i, !.nid = s.nid + 1]
Con(s, v, z, front, tr, shared) ==
  IF Len(Live(s.l)) >= P THEN s
  ELSE LET sw == IF shared THEN Sweep(s.l, 1, Len(s.l), TRUE) ELSE Sweep(s.l, From(s, v), v.chk, v.grab) IN Insert(s, sw, Pos(sw.l, z, front), z, tr)
Set(s, id, x) == [s EXCEPT !.l = [i \in DOMAIN s.l |-> IF s.l[i].id = id /\ s.l[i].s = "L" THEN [s.l[i] EXCEPT !.s = x] ELSE s.l[i]]]
All(s, z) == [s EXCEPT !.l = [i \in DOMAIN s.l |-> IF s.l[i].s = "L" /\ (z = 9 \/ s.l[i].z = z) THEN [s.l[i] EXCEPT !.s = "D"] ELSE s.l[i]]]
Emit(s, v, early) ==
  LET sw == Sweep(s.l, From(s, v), v.echk, v.egrab)
      stop == IF early /\ Live(sw.l) # <<>> THEN CHOOSE i \in DOMAIN sw.l : sw.l[i].s = "L" /\ \A j \in 1..(i - 1) : sw.l[j].s # "L" ELSE Len(sw.l)
      seen == [i \in DOMAIN sw.l |-> IF i <= stop /\ sw.l[i].s = "E" THEN [sw.l[i] EXCEPT !.s = "D"] ELSE sw.l[i]]
      d == Cardinality({i \in 1..stop : seen[i].s = "D"})
      f == IF d > stop - d /\ v.jan THEN Sweep(seen, 1, Len(seen), FALSE) ELSE [l |-> seen, i |-> sw.i]
  IN [s EXCEPT !.l = f.l, !.gc = f.i]
Min(X) == CHOOSE x \in X : \A y \in X : x <= y
Max(X) == CHOOSE x \in X : \A y \in X : x >= y
IdsOf(l) == {l[i].id : i \in DOMAIN l}
Kill(s, x) == LET l == Live(s.l) IN IF l = <<>> THEN s ELSE Set(s, CASE x = 11 -> Min(IdsOf(l)) [] x = 12 -> Max(IdsOf(l)) [] x = 13 -> l[1].id [] x = 14 -> l[Len(l)].id, "D")
Step(s, v, c) ==
  CASE c = 1 -> Con(s, v, 2, FALSE, 0, FALSE) [] c = 2 -> Con(s, v, 0, TRUE, 0, FALSE) [] c = 3 -> Con(s, v, 1, FALSE, 0, FALSE) [] c = 4 -> Con(s, v, 1, TRUE, 0, FALSE)
    [] c = 5 -> Con(s, v, 2, FALSE, 1, FALSE) [] c = 7 -> Con(s, v, 0, TRUE, 1, FALSE)
    [] c = 6 -> IF Live(s.l) = <<>> THEN s ELSE Con(Emit([s EXCEPT !.l = @], [v EXCEPT !.jan = FALSE], FALSE), v, 2, FALSE, 0, TRUE)
    [] c \in 11..14 -> Kill(s, c)
    [] c = 15 -> All(s, 9) [] c = 16 -> All(s, 1)
    [] c = 17 -> LET t == SelectSeq(Live(s.l), LAMBDA e : e.tr = 1) IN IF t = <<>> THEN s ELSE Set(s, Min(IdsOf(t)), "E")
    [] c \in {21, 23} -> Emit(s, v, FALSE) [] c = 22 -> Emit(s, v, TRUE)
RECURSIVE Word(_, _, _, _)
Word(s, v, w, i) == IF i > Len(w) THEN s ELSE Word(Step(s, v, w[i]), v, w, i + 1)
RECURSIVE Rep(_, _, _, _)
Rep(s, v, w, k) == IF k = 0 THEN s ELSE Rep(Word(s, v, w, 1), v, w, k - 1)
Empty == [l |-> <<>>, gc |-> 1, nid |-> 0, k |-> 0]
Grown(w, v, k) == LET a == Rep(Empty, v, w, k) IN Len(a.l) > k \div 2 /\ LET b == Rep(a, v, w, k) IN Len(b.l) >= Len(a.l) + k \div 4
Grows(w) == \E x \in Variants : Grown(w, Var(x), 12)
Dots(w) == IF w = <<>> THEN "" ELSE IF Len(w) = 1 THEN ToString(w[1]) ELSE ToString(w[1]) \o "." \o (LET RECURSIVE D(_) D(i) == IF i > Len(w) THEN "" ELSE (IF i > 2 THEN "." ELSE "") \o ToString(w[i]) \o D(i + 1) IN D(2))
NoWord == [w |-> <<>>]
Words == /\ n < MaxLen /\ n' = n + 1 /\ \E c \in Codes : st' = [w |-> Append(st.w, c)]
         /\ path' = "op begin" \o S("cap", P) \o ";op rep n=120 fin=1 trk=" \o Dots(st'.w)
WordsScript == IF (\E i \in DOMAIN st'.w : st'.w[i] < 10) /\ (\E i \in DOMAIN st'.w : st'.w[i] \in 11..17) /\ Grows(st'.w) THEN PrintT("SCRIPT " \o path') ELSE TRUE
\* ---- adversary
DisAll(s, X) == LET RECURSIVE D(_, _) D(q, Y) == IF Y = {} THEN q ELSE LET x == Max(Y) IN D([s |-> Set(q.s, x, "D"), p |-> q.p \o ";op dis" \o S("sid", x)], Y \ {x}) IN D([s |-> s, p |-> ""], X)
LiveAt(s, I) == {s.l[i].id : i \in {j \in I : j \in DOMAIN s.l /\ s.l[j].s = "L"}}
AdvStep ==
  LET v == [Good EXCEPT !.chk = Adv]
      a == IF st.gc > Len(st.l) THEN LiveAt(st, (Adv + 1)..Len(st.l)) ELSE LiveAt(st, Adv..(st.gc - 1))
      lv == [i \in 1..Len(Live(st.l)) |-> Live(st.l)[i].id]
      rest == SelectSeq(lv, LAMBDA x : x \notin a)
      b == {rest[i] : i \in {j \in DOMAIN rest : j > P - 1}}
      d == DisAll(st, a \cup b)
      sw == Sweep(d.s.l, From(d.s, v), v.chk, TRUE)
      i == IF sw.i > Len(sw.l) THEN 1 ELSE sw.i + 1
      s2 == Insert(d.s, sw, i, 1, 0)
  IN /\ n < MaxOps /\ n' = n + 1 /\ st' = s2
     /\ path' = path \o d.p \o ";op con" \o S("sid", s2.nid) \o S("after", IF i = 1 THEN 0 ELSE sw.l[i - 1].id) \o S("tr", 0)
\* ---- emissions that stop early: P - 1 slots stay at the front
EarlyStep ==
  LET v == [Good EXCEPT !.egrab = FALSE] IN
  IF st.k > 0 /\ st.gc <= Len(st.l) /\ st.k <= 2 * Len(st.l)
  THEN /\ st' = [Emit(st, v, TRUE) EXCEPT !.k = st.k + 1] /\ UNCHANGED <<path, n>>
  ELSE /\ n < MaxOps /\ n' = n + 1
       /\ st' = [Set(Con(st, v, 2, FALSE, 1, FALSE), st.nid + 1, "E") EXCEPT !.k = 1]
       /\ path' = path \o (IF st.k > 1 THEN ";op rep fin=0 trk=22" \o S("n", st.k - 1) ELSE "") \o ";op rep n=1 fin=0 trk=5.17"
MCInit ==
  /\ n = 0
  /\ CASE Mode = "words" -> st = NoWord /\ path = ""
       [] Mode = "adv" -> st = Empty /\ path = "op begin" \o S("cap", P)
       [] Mode = "early" -> st = Rep(Empty, Good, <<2>>, P - 1) /\ path = "op begin" \o S("cap", P) \o ";op rep fin=1 trk=2" \o S("n", P - 1)
MCNext == CASE Mode = "words" -> Words [] Mode = "adv" -> AdvStep [] Mode = "early" -> EarlyStep
Spec == MCInit /\ [][MCNext]_<<st, path, n>>
Script == IF Mode = "words" THEN WordsScript ELSE IF n' = MaxOps /\ n < n' THEN PrintT("SCRIPT " \o path') ELSE TRUE
=============================================================================
