---------------------------- MODULE RelPtrTrace ----------------------------
EXTENDS RelPtr, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init
Step(e) ==
  CASE e.e = "Begin" -> Begin(e.regions, e.ps)
    [] e.e = "New" -> New(e.p, e.loc, e.want, e.is)
    [] e.e = "Copy" -> Copy(e.p, e.loc, e.q, e.is)
    [] e.e = "Asg" -> Assign(e.p, e.q, e.is)
    [] e.e = "AsgRaw" -> AssignRaw(e.p, e.want, e.is)
    [] e.e = "Move" -> Move(e.p, e.want, e.is)
    [] e.e = "Sum" -> Sum(e.p, e.loc, e.q, e.want, e.is)
    [] e.e = "Swap" -> Swap(e.p, e.q, e.a, e.b)
    [] e.e = "Remap" -> Remap(e.p, e.loc, e.q, e.d, e.is)
    [] e.e = "Gone" -> Gone(e.p)
    [] e.e = "Deref" -> Deref(e.p, e.how, e.off, e.sz, e.ok, e.got)
    [] e.e = "Cmp" -> Cmp(e.p, e.q, e.eq, e.ne, e.le, e.lt, e.ge, e.gt, e.nul, e.b, e.d)
    [] e.e = "End" -> UNCHANGED vars
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
============================================================================
