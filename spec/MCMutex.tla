------------------------------ MODULE MCMutex ------------------------------
(* all schedules of at most MaxOps operations (an operation starts when everything before it has settled), *)
(* and, with Free, all interleavings of the instants at which operations take effect *)
EXTENDS Mutex, TLC
CONSTANTS MaxOps, Free, DM
VARIABLES path, n, wrote
mcvars == <<vars, path, n, wrote>>
View == <<vars, n, wrote>>
S(k, v) == " " \o k \o "=" \o ToString(v)
MCInit == Init /\ path = "" /\ n = 0 /\ wrote = [m \in 1..NM |-> 0]
Quiet == \A t \in 1..NT : ~CanTake(t) /\ pend[t].ph # "took"
\* threads are interchangeable: a new one starts only after the lower ones have
Used == {t \in 1..NT : pend[t].ph # "none" \/ \E m \in 1..NM : owner[m] = t}
Cand == {t \in 1..NT : pend[t].ph = "none"}
MCNext ==
  \/ n = 0 /\ Kinds(IF DM = 1 THEN 1..NM ELSE IF DM = 2 THEN {NM} ELSE {}) /\ path' = "op begin" \o S("dm", DM) /\ n' = 1 /\ UNCHANGED wrote
  \/ /\ n > 0 /\ n <= MaxOps /\ (Free \/ Quiet) /\ n' = n + 1
     /\ \E t \in Cand, o \in {"lock", "try", "unlock", "rd", "wr"}, m \in 1..NM :
          /\ (o = "lock" => \A k \in 1..NM : owner[k] = t => k < m)      \* in order, so that nothing deadlocks
          /\ Call(t, o, m, IF o = "wr" THEN n ELSE 0)
          /\ path' = path \o ";op " \o o \o S("th", t) \o S("m", m) \o S("v", IF o = "wr" THEN n ELSE 0)
          /\ UNCHANGED wrote
  \/ \E t \in 1..NT : Take(t) /\ wrote' = (IF pend[t].o = "wr" THEN [wrote EXCEPT ![pend[t].m] = pend[t].r] ELSE wrote) /\ UNCHANGED <<path, n>>
  \/ \E t \in 1..NT : pend[t].ph = "took" /\ Done(t, pend[t].r) /\ UNCHANGED <<path, n, wrote>>
Spec == MCInit /\ [][MCNext]_mcvars /\ \A t \in 1..NT : WF_vars(Take(t)) /\ WF_vars(pend[t].ph = "took" /\ Done(t, pend[t].r))
Script == IF n' > n /\ n > 0 THEN PrintT("SCRIPT " \o path') ELSE TRUE
Visible == data = wrote
Progress == \A t \in 1..NT : CanTake(t) ~> ~CanTake(t)
Took == [][\A t \in 1..NT, m \in 1..NM : (owner[m] # t /\ owner'[m] = t) => owner[m] = 0]_vars
=============================================================================
