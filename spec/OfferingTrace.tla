---------------------------- MODULE OfferingTrace ----------------------------
EXTENDS Offering, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0
Step(e) ==
  CASE e.e = "Begin" -> Begin(e.objs, e.strict)
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "CC" -> TakeCall(e.p)
    [] e.e = "CR" -> TakeRet(e.p, e.ok)
    [] e.e = "OC" -> OfferCall(e.p)
    [] e.e = "OR" -> OfferRet(e.p, e.ok, e.objs, e.mine, e.free)
    [] e.e = "SC" -> StopCall(e.p)
    [] e.e = "SR" -> StopRet(e.p, e.objs)
    [] e.e = "DC" -> LeaveCall(e.p)
    [] e.e = "DR" -> LeaveRet(e.p)
    [] e.e = "PC" -> OpenCall(e.c)
    [] e.e = "PR" -> OpenRet(e.c, e.ok, e.objs)
    [] e.e = "XC" -> CloseCall(e.c)
    [] e.e = "XR" -> CloseRet(e.c)
    [] e.e = "Kill" -> IF e.k = "p" THEN KillProvider(e.w, e.objs, e.lock) ELSE KillConsumer(e.w, e.lock)
    [] e.e = "Died" -> IF e.k = "p" THEN ProviderDied(e.w) ELSE ConsumerDied(e.w)
    [] e.e \in {"Bad", "Abort", "Hang"} -> Bad
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
