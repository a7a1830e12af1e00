--------------------------- MODULE SampleHoldTrace ---------------------------
EXTENDS SampleHold, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0
Step(e) ==
  CASE e.e = "Begin" -> max' = -1 /\ out' = {} /\ held' = {} /\ going' = {} /\ gets' = << >> /\ asks' = << >>
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "Sub" -> Subscribe(e.n, e.ok, e.refused)
    [] e.e = "Get" -> Get(e.t, e.k)
    [] e.e = "Taken" -> Taken(e.b)
    [] e.e = "Given" -> Given(e.t, e.b)
    [] e.e = "Short" -> Short(e.t)
    [] e.e = "Got" -> Got(e.t, e.n, e.full, e.err)
    [] e.e = "Rel" -> Rel(e.b)
    [] e.e = "Back" -> Back(e.b)
    [] e.e = "Gone" -> Gone(e.b)
    [] e.e = "Ask" -> Ask(e.t)
    [] e.e = "Free" -> Free(e.t, e.n)
    [] e.e = "Unsub" -> Unsubscribe(e.lives)
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
