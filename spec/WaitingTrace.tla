---------------------------- MODULE WaitingTrace ----------------------------
EXTENDS Waiting, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0(1)
Step(e) ==
  CASE e.e = "FBegin" -> f' = [k \in 1..e.n |-> New]
    [] e.e = "SetC" -> SetCall(e.f, e.v)
    [] e.e = "SetR" -> SetRet(e.f)
    [] e.e = "WaitC" -> WaitCall(e.f, e.w)
    [] e.e = "WaitR" -> WaitRet(e.f, e.w, e.a, e.b, e.hb)
    [] e.e = "FGone" -> Gone(e.f)
    [] e.e = "Late" -> Late(e.f)
    [] e.e = "Hang" -> Stuck
    [] e.e = "End" -> UNCHANGED vars
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
============================================================================
