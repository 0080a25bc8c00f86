----------------------------- MODULE TraceMutex -----------------------------
EXTENDS Mutex, TLC, Json, IOUtils, TLCExt
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == Init /\ l = 1 /\ TLCSet(1, 1)
Reset == dummy' = {} /\ owner' = [m \in 1..NM |-> 0] /\ pend' = [t \in 1..NT |-> Idle] /\ data' = [m \in 1..NM |-> 0]
Set(s) == {s[i] : i \in DOMAIN s}
Event ==
  /\ l <= Len(TraceLog) /\ l' = l + 1
  /\ LET e == TraceLog[l] IN
     CASE e.e = "op" -> CASE e.o = "begin" -> Kinds({m \in 1..NM : e.dm = 1 \/ (e.dm = 2 /\ m = NM)})
                          [] e.o = "stress" -> UNCHANGED vars
                          [] OTHER -> Call(e.th, e.o, e.m, e.v)
       [] e.e = "call" -> Call(e.th, e.o, e.m, e.v)
       [] e.e = "done" -> Done(e.th, e.r)
       [] e.e = "settle" -> Settled(Set(e.p)) /\ UNCHANGED vars
       [] e.e = "end" -> Settled({}) /\ (\A m \in 1..NM : owner[m] = 0) /\ UNCHANGED vars
       [] e.e = "reset" -> Reset
       [] OTHER -> FALSE
\* an operation may take effect at any moment; it need be tried only when that can matter to the next event
TraceNext == Event \/ ((\E t \in 1..NT : Take(t)) /\ UNCHANGED l)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
Reached == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
TraceAccepted == PrintT(<<"REACHED", TLCGet(1), "OF", Len(TraceLog)>>)
=============================================================================
