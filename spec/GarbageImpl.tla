---------------------------- MODULE GarbageImpl ----------------------------
(***************************************************************************)
(* The clean-up algorithm of signal_impl, at the level of the code: the    *)
(* list with live (L), disconnected (D) and expired but unnoticed (E)      *)
(* entries, the position where incremental clean-up resumes, clean-up of   *)
(* Check entries by a connect and of one by an emission, full clean-up     *)
(* when an emission has met more dead than live entries, and copying of    *)
(* the list when it is being read.  For a bounded number of live entries   *)
(* every reachable state is explored, histories being unbounded; that the  *)
(* list stays within Bound is checked in all of them.                      *)
(* Bug weakens the algorithm, to see that the bound is not a triviality.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS P, Check, Bound, Expire, Early, Grab, Bug
VARIABLES list, gc, held      \* held: copies of the list being read by emissions (their dead entries)
vars == <<list, gc, held>>
Live(l) == Cardinality({i \in DOMAIN l : l[i] = "L"})
Dead(l) == Len(l) - Live(l)
Init == list = <<>> /\ gc = 1 /\ held = 0
\* erase dead entries from position i on, at most n entries looked at; returns list and position
RECURSIVE Sweep(_, _, _, _)
Sweep(l, i, n, grab) ==
  IF n = 0 \/ i > Len(l) THEN [l |-> l, i |-> i]
  ELSE IF l[i] = "D" \/ (l[i] = "E" /\ grab) THEN Sweep(SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l)), i, n - 1, grab)
  ELSE Sweep(l, i + 1, n - 1, grab)
From(l, g) == IF g > Len(l) THEN (IF Bug = "norestart" THEN g ELSE 1) ELSE g
Full(l, grab) == Sweep(l, 1, Len(l), grab)
Connect(i) ==      \* at position i of the cleaned list
  /\ Live(list) < P
  /\ LET s == IF held > 0 THEN (IF Bug = "nocow" THEN [l |-> list, i |-> gc] ELSE Full(list, TRUE)) ELSE Sweep(list, From(list, gc), Check, Bug # "nograb") IN
     /\ i <= Len(s.l) + 1
     /\ list' = SubSeq(s.l, 1, i - 1) \o <<"L">> \o SubSeq(s.l, i, Len(s.l))
     /\ gc' = IF Bug = "reset" THEN 1 ELSE IF i <= s.i THEN s.i + 1 ELSE s.i
     /\ held' = 0      \* the copy is not shared with the reader any more
Disconnect(i) == list[i] = "L" /\ list' = [list EXCEPT ![i] = "D"] /\ UNCHANGED <<gc, held>>
Expired(i) == Expire /\ list[i] = "L" /\ list' = [list EXCEPT ![i] = "E"] /\ UNCHANGED <<gc, held>>
\* a complete emission, or one that stops after the first slot called
Emit(early) ==
  /\ held = 0 /\ (early => Early)
  /\ LET s == Sweep(list, From(list, gc), 1, Grab)
         stop == IF early /\ Live(s.l) > 0 THEN CHOOSE i \in DOMAIN s.l : s.l[i] = "L" /\ \A j \in 1..(i - 1) : s.l[j] # "L" ELSE Len(s.l)
         seen == [i \in DOMAIN s.l |-> IF i <= stop /\ s.l[i] = "E" THEN "D" ELSE s.l[i]]
         d == Cardinality({i \in 1..stop : seen[i] = "D"})
         f == IF d > stop - d /\ Bug # "nojanitor" THEN Full(seen, FALSE) ELSE [l |-> seen, i |-> s.i]
     IN list' = f.l /\ gc' = f.i
  /\ UNCHANGED held
Read == held = 0 /\ list # <<>> /\ held' = 1 /\ UNCHANGED <<list, gc>>     \* an emission begins, and something happens in it
Next == (\E i \in 1..(Len(list) + Check + 1) : Connect(i)) \/ (\E i \in DOMAIN list : Disconnect(i) \/ Expired(i)) \/ (\E b \in BOOLEAN : Emit(b)) \/ Read
Spec == Init /\ [][Next]_vars
Limit == Len(list) <= Bound + 1        \* explore no further once it is broken
Bounded == Len(list) <= Bound
=============================================================================
