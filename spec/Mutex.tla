------------------------------- MODULE Mutex -------------------------------
(***************************************************************************)
(* signals2::mutex and dummy_mutex, for any number of threads.  Every      *)
(* operation of a thread takes effect at one instant (Take) between its    *)
(* call and its return: lock only when the mutex is free, try_lock at      *)
(* once, succeeding exactly when it is free.  Each mutex guards a datum.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS NT, NM
VARIABLES
  dummy,   \* which mutexes are dummies
  owner,   \* holder of each mutex, 0: free
  pend,    \* operation each thread is executing
  data     \* guarded by the mutex of the same number
vars == <<dummy, owner, pend, data>>
Idle == [ph |-> "none"]
Init == dummy = {} /\ owner = [m \in 1..NM |-> 0] /\ pend = [t \in 1..NT |-> Idle] /\ data = [m \in 1..NM |-> 0]

\* a thread unlocks only what it holds, never locks what it holds; data only under the lock
Sensible(t, o, m) == CASE o = "lock" -> owner[m] # t \/ m \in dummy [] o = "try" -> TRUE [] o \in {"unlock", "rd", "wr"} -> owner[m] = t \/ m \in dummy
Call(t, o, m, v) ==
  /\ pend[t].ph = "none" /\ Sensible(t, o, m)
  /\ pend' = [pend EXCEPT ![t] = [ph |-> "call", o |-> o, m |-> m, r |-> v]]
  /\ UNCHANGED <<dummy, owner, data>>
CanTake(t) == pend[t].ph = "call" /\ (pend[t].o = "lock" => owner[pend[t].m] = 0 \/ pend[t].m \in dummy)
Take(t) ==
  /\ CanTake(t)
  /\ LET p == pend[t] m == p.m d == m \in dummy
         got == d \/ owner[m] = 0
     IN /\ owner' = IF d THEN owner ELSE CASE p.o \in {"lock", "try"} -> (IF got THEN [owner EXCEPT ![m] = t] ELSE owner) [] p.o = "unlock" -> [owner EXCEPT ![m] = 0] [] OTHER -> owner
        /\ data' = IF p.o = "wr" THEN [data EXCEPT ![m] = p.r] ELSE data
        /\ pend' = [pend EXCEPT ![t] = [ph |-> "took", r |-> CASE p.o = "try" -> (IF got THEN 1 ELSE 0) [] p.o = "rd" -> data[m] [] OTHER -> 0]]
  /\ UNCHANGED dummy
Done(t, r) == pend[t].ph = "took" /\ r = pend[t].r /\ pend' = [pend EXCEPT ![t] = Idle] /\ UNCHANGED <<dummy, owner, data>>
\* when nothing happens any more, the threads in P are still waiting, each for a mutex somebody holds
Settled(P) == \A t \in 1..NT : IF t \in P THEN pend[t].ph = "call" /\ ~CanTake(t) ELSE pend[t].ph = "none"
Kinds(D) == dummy' = D /\ UNCHANGED <<owner, pend, data>>

\* ---- the property
Holds(t, m) == owner[m] = t
Excl == \A m \in 1..NM : m \in dummy => owner[m] = 0
TryNeverWaits == \A t \in 1..NT : (pend[t].ph = "call" /\ pend[t].o # "lock") => ENABLED Take(t)
=============================================================================
