------------------------- MODULE GatewayStreamTrace -------------------------
EXTENDS GatewayStream, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0
Step(e) ==
  CASE e.e = "Begin" -> fr' = << >> /\ pos' = 0 /\ ended' = FALSE /\ rf' = FALSE /\ over' = FALSE
    [] e.e \in {"End", "RecvC"} -> UNCHANGED vars
    [] e.e = "Send" -> Send(e.m, e.fits)
    [] e.e = "Fault" -> Fault(e.m, e.cut)
    [] e.e = "SendR" -> SendRet(e.m, e.ok)
    [] e.e = "Bad" -> Bad(e.m, e.k)
    [] e.e = "Close" -> Close
    [] e.e = "RFault" -> RecvFault
    [] e.e = "Recv" -> Recv(e.m, e["in"], e.same, e.emp)
    [] e.e = "Null" -> Null
    [] e.e = "Rest" -> AtRest
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
