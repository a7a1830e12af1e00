---------------------------- MODULE FileLockTrace ----------------------------
EXTENDS FileLock, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0
Step(e) ==
  CASE e.e = "Begin" -> hs' = << >> /\ att' = << >> /\ left' = [sure |-> 0, maybe |-> 0]
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "OpC" -> OpenCall(e.h, e.p, e.f, e.k, e.own)
    [] e.e = "OpR" -> OpenRet(e.h, e.ok, e.ino, e.flt)
    [] e.e = "ClC" -> CloseCall(e.h)
    [] e.e = "ClR" -> CloseRet(e.h)
    [] e.e = "LkC" -> LockCall(e.h, e.x, e.t)
    [] e.e = "LkR" -> LockRet(e.h, e.ok, e.flt)
    [] e.e = "UnC" -> UnlockCall(e.h)
    [] e.e = "UnR" -> UnlockRet(e.h)
    [] e.e = "Crash" -> Crash(e.p)
    [] e.e = "Rest" -> AtRest(e.p, e.fds)
    [] e.e = "Name" -> NameAtRest(e.ex)
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
