--------------------------- MODULE ShmObjectTrace ---------------------------
EXTENDS ShmObject, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0
Step(e) ==
  CASE e.e = "Begin" -> objs' = << >> /\ ops' = << >> /\ hold' = {} /\ stuck' = FALSE /\ ghost' = FALSE
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "C" -> Call(e.t, e.p, e.k, e.acc)
    [] e.e = "I" -> InitBegin(e.t, e.i)
    [] e.e = "D" -> InitEnd(e.t)
    [] e.e = "R" -> Ret(e.t, e.i, e.whole, e.flt)
    [] e.e = "Rm" -> Removed(e.t)
    [] e.e = "St" -> Cleared(e.t)
    [] e.e = "Drop" -> Drop(e.t)
    [] e.e = "Crash" -> Crash(e.p)
    [] e.e = "Dies" -> Dies(e.t, e.flt)
    [] e.e = "Rest" -> AtRest(e.p, e.fds, e.maps)
    [] e.e = "Names" -> NamesAtRest(e.obj, e.lock)
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
