---------------------------- MODULE TraceSignals2 ----------------------------
(***************************************************************************)
(* Validation of traces recorded from the real code (harness/seq.cpp,      *)
(* harness/conc.cpp) against Signals2.  The trace file holds one event per *)
(* line; "reset" starts the next program.  The trace is accepted if all of *)
(* its lines can be consumed.                                              *)
(***************************************************************************)
EXTENDS Signals2, Json, IOUtils, TLCExt

TraceLog == ndJsonDeserialize(IOEnv.TRACE)

VARIABLE l
tvars == <<vars, l>>

TraceInit == Init /\ l = 1 /\ TLCSet(1, 1)

Reset ==
  /\ sig' = [h \in 1..NH |-> -1]
  /\ imp' = <<>>
  /\ con' = <<>>
  /\ blk' = [b \in 1..NB |-> [ex |-> FALSE, c |-> 0, on |-> FALSE]]
  /\ obj' = <<>>
  /\ hnd' = [k \in 1..NK |-> NoHnd]
  /\ gone' = {}
  /\ ord' = {}
  /\ stk' = [t \in Threads |-> <<>>]

Event ==
  /\ l <= Len(TraceLog)
  /\ l' = l + 1
  /\ LET e == TraceLog[l] t == e.t IN
     /\ e.h = 0 \/ "lock" \in Relax         \* no library lock is held when user code runs
     /\ CASE e.e = "op" -> EvOp(t, e)
          [] e.e = "ret" -> EvRet(t, e)
          [] e.e = "comb" -> EvComb(t, e)
          [] e.e = "deref" -> EvDeref(t, e)
          [] e.e = "call" -> EvCall(t, e)
          [] e.e = "cret" -> EvCRet(t, e)
          [] e.e = "cthrow" -> EvCThrow(t, e)
          [] e.e = "derr" -> EvDerR(t, e)
          [] e.e = "derx" -> EvDerX(t, e)
          [] e.e = "inc" -> EvInc(t, e)
          [] e.e = "incr" -> EvIncR(t, e)
          [] e.e = "incx" -> EvIncX(t, e)
          [] e.e = "cend" -> EvCEnd(t, e)
          [] e.e = "sdtor" -> EvSDtor(t, e)
          [] e.e = "sdtorE" -> EvSDtorE(t, e)
          [] e.e = "odtor" -> EvODtor(t, e)
          [] e.e = "odtorE" -> EvODtorE(t, e)
          [] e.e = "end" -> EvEnd   \* "leak" after it is not accepted
          [] e.e = "reset" -> Reset
          [] OTHER -> FALSE   \* crash, hang, deadlock, ...

TraceNext == Event \/ (Silent /\ UNCHANGED l)

TraceSpec == TraceInit /\ [][TraceNext]_tvars

\* highest line reached
Reached == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
TraceAccepted == PrintT(<<"REACHED", TLCGet(1), "OF", Len(TraceLog)>>)
=============================================================================
