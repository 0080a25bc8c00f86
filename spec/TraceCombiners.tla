--------------------------- MODULE TraceCombiners ---------------------------
EXTENDS Combiners, TLC, Json, IOUtils, TLCExt
TraceLog == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
TraceInit == Init /\ l = 1 /\ TLCSet(1, 1)
Reset == cb' = NoCb /\ slots' = <<>> /\ run' = NoRun
TraceNext ==
  /\ l <= Len(TraceLog) /\ l' = l + 1
  /\ LET e == TraceLog[l] IN
     CASE e.e = "op" -> Op(e)
       [] e.e = "call" -> IF cb.opt = "told" THEN CallTold(e) ELSE Call(e)
       [] e.e = "do" -> Do(e)
       [] e.e = "got" -> Got(e)
       [] e.e = "gotx" -> GotX(e)
       [] e.e = "ret" -> Ret(e)
       [] e.e = "end" -> run.ph = "none" /\ UNCHANGED vars
       [] e.e = "reset" -> Reset
       [] OTHER -> FALSE
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
Reached == TLCSet(1, IF TLCGet(1) < l THEN l ELSE TLCGet(1))
TraceAccepted == PrintT(<<"REACHED", TLCGet(1), "OF", Len(TraceLog)>>)
=============================================================================
