--------------------------- MODULE TraceDeconstruct ---------------------------
EXTENDS Deconstruct, TLC, Json, IOUtils, TLCExt
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == Init /\ l = 1 /\ TLCSet(1, 1)
Reset == inv' = [i \in 1..NI |-> None] /\ ptr' = [i \in 1..NP |-> 0] /\ obj' = <<>> /\ op' = Idle
TraceNext ==
  /\ l <= Len(TraceLog) /\ l' = l + 1
  /\ LET e == TraceLog[l] IN
     CASE e.e = "op" -> EvOp(e)
       [] e.e \in {"ctor", "post", "pre", "dtor", "udel"} -> EvCall(e)
       [] e.e = "ret" -> EvRet(e)
       [] e.e = "end" -> EvEnd
       [] e.e = "reset" -> Reset
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
Reached == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
TraceAccepted == PrintT(<<"REACHED", TLCGet(1), "OF", Len(TraceLog)>>)
=============================================================================
