----------------------------- MODULE AllocTrace -----------------------------
EXTENDS Alloc, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0(0, 0)
Step(e) ==
  CASE e.e = "Begin" -> low' = 0 /\ high' = 0 /\ blocks' = {} /\ pend' = << >> /\ lost' = << >>
    [] e.e = "Map" -> /\ R({"S05"}, e.low >= e.cb /\ (high = 0 \/ low = e.low))       \* the payload starts behind the management data, everywhere at the same place
                      /\ low' = e.low /\ high' = e.low + e.sz /\ UNCHANGED <<blocks, pend, lost>>
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "AC" -> AllocCall(e.p, e.n, e.a)
    [] e.e = "AR" -> AllocRet(e.p, e.o, e.al)
    [] e.e = "AF" -> AllocFail(e.p)
    [] e.e = "Crash" -> Crash(e.p)
    [] e.e = "Rest" -> AtRest(e.u)
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
