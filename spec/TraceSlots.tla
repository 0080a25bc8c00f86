--------------------------- MODULE TraceSlots ---------------------------
EXTENDS Slots, TLC, Json, IOUtils, TLCExt
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == Init /\ l = 1 /\ TLCSet(1, 1)
Reset == obj' = <<>> /\ slt' = [k \in 1..NSL |-> None] /\ lck' = [m \in 1..NL |-> {0}] /\ op' = Idle
Event ==
  /\ l <= Len(TraceLog) /\ l' = l + 1
  /\ LET e == TraceLog[l] IN
     CASE e.e = "op" -> EvOp(e)
       [] e.e = "call" -> EvCall(e)
       [] e.e = "drop" -> EvDrop(e)
       [] e.e = "fdrop" -> EvFDrop(e)
       [] e.e = "cret" -> EvCRet(e)
       [] e.e = "odtor" -> EvODtor(e)
       [] e.e = "ret" -> EvRet(e)
       [] e.e = "end" -> EvEnd
       [] e.e = "reset" -> Reset
       [] OTHER -> FALSE
TraceNext == Event \/ ((Release \/ Look) /\ UNCHANGED l)
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
Reached == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
TraceAccepted == PrintT(<<"REACHED", TLCGet(1), "OF", Len(TraceLog)>>)
=============================================================================
