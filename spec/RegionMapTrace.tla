-------------------------- MODULE RegionMapTrace ---------------------------
EXTENDS RegionMap, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init
Step(e) ==
  CASE e.e = "Begin" -> reg' = Empty /\ lk' = Empty
    [] e.e = "InsC" -> InsCall(e.o, e.id, e.s, e.t, e.b)
    [] e.e = "InsR" -> InsRet(e.o, e.ok)
    [] e.e = "RemC" -> RemCall(e.o)
    [] e.e = "RemR" -> RemRet(e.o)
    [] e.e = "ClrC" -> ClrCall
    [] e.e = "ClrR" -> ClrRet
    [] e.e = "LkC" -> LkCall(e.l, e.k, e.a)
    [] e.e = "LkR" -> LkRet(e.l, e.s, e.t, e.hb)
    [] e.e = "End" -> UNCHANGED vars
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
============================================================================
