-------------------------- MODULE NotificationTrace --------------------------
EXTENDS Notification, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0
Step(e) ==
  CASE e.e = "Begin" -> Begin
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "Prov" -> Prov(e.n)
    [] e.e = "RegC" -> RegC(e.h, e.ev, e.to)
    [] e.e = "RegR" -> RegR(e.h)
    [] e.e = "RerC" -> RerC(e.h, e.to)
    [] e.e = "RerR" -> RerR(e.h)
    [] e.e = "UnrC" -> UnrC(e.h)
    [] e.e = "UnrR" -> UnrR(e.h)
    [] e.e = "Gone" -> Gone(e.h)
    [] e.e = "UpC" -> UpC(e.ev)
    [] e.e = "UpR" -> UpR(e.ev)
    [] e.e = "Call" -> Call(e.h)
    [] e.e = "Quiet" -> Quiet
    [] e.e = "Hang" -> Stuck
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
