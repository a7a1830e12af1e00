--------------------------- MODULE DeferredTrace ---------------------------
EXTENDS Deferred, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0
Step(e) ==
  CASE e.e = "Begin" -> ent' = << >> /\ clk' = 1 /\ proc' = Idle /\ running' = 0 /\ clean' = << >>
    [] e.e = "RegC" -> RegCall(e.id, e.o, e.due)
    [] e.e = "RegR" -> RegRet(e.id)
    [] e.e = "ProcC" -> ProcCall(e.now)
    [] e.e = "ProcR" -> ProcRet(e.next)
    [] e.e = "Run" -> Run(e.id, e.now)
    [] e.e = "RunR" -> RunRet(e.id)
    [] e.e = "Gone" -> Gone(e.id)
    [] e.e = "CleanC" -> CleanCall(e.o)
    [] e.e = "CleanR" -> CleanRet(e.o)
    [] e.e = "End" -> End
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
============================================================================
