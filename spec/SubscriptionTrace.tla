-------------------------- MODULE SubscriptionTrace --------------------------
EXTENDS Subscription, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0
Step(e) ==
  CASE e.e = "Begin" -> Begin(e.slots, e.subs)
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "N" -> New(e.c, e.av)
    [] e.e = "C" -> Call(e.c, e.t, e.op, e.n, e.h)
    [] e.e = "R" -> Ret(e.c, e.t, e.v)
    [] e.e = "H" -> Told(e.c, e.h, e.s, e.keep)
    [] e.e = "V" -> Called(e.c, e.h)
    [] e.e = "F" -> FreeIs(e.c, e.n)
    [] e.e = "Q" -> Quiet(e.c, e.called)
    [] e.e = "Bad" -> Bad
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
