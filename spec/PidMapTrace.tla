---------------------------- MODULE PidMapTrace ----------------------------
EXTENDS PidMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0(1)
Step(e) ==
  CASE e.e = "Begin" -> size' = e.size /\ cur' = << >> /\ call' = << >>
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "RegC" -> RegCall(e.a, e.p)
    [] e.e = "RegR" -> RegRet(e.a, e.r)
    [] e.e = "Crash" -> Crash(e.a)
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1 /\ R({"C09"}, FitsTable)'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
============================================================================
