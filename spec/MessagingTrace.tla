--------------------------- MODULE MessagingTrace ---------------------------
EXTENDS Messaging, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, smax
tvars == <<vars, i, smax>>
TraceInit == i = 1 /\ smax = 0 /\ Init0
Step(e) ==
  CASE e.e = "Begin" -> now' = 0 /\ cl' = << >> /\ cn' = << >> /\ ms' = << >> /\ nt' = << >> /\ lis' = 0 /\ lisat' = 0
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "Cfg" -> Cfg(e.c, e.cap, e.ord, e.sync, e.raw)
    [] e.e = "Start" -> Start(e.c, e.re)
    [] e.e = "StartR" -> StartRet(e.c)
    [] e.e = "Stop" -> Stop(e.c)
    [] e.e = "StopR" -> StopRet(e.c, e.inc)
    [] e.e = "StC" -> StateCb(e.c, e.s, e.why, e.en)
    [] e.e = "StE" -> StateCbEnd(e.c, e.s)
    [] e.e = "GetC" -> Noop
    [] e.e = "Get" -> Get(e.c, e.s, e.same)
    [] e.e = "Del" -> Delete(e.c)
    [] e.e = "DelR" -> Deleted(e.c)
    [] e.e = "Conn" -> Connect(e.c, e.x, e.r, e.t)
    [] e.e = "Shut" -> Shut(e.x, e.srv)
    [] e.e = "LisC" -> Listen
    [] e.e = "LisR" -> Noop
    [] e.e = "UnlC" -> Unlisten(FALSE)
    [] e.e = "UnlR" -> Unlisten(TRUE)
    [] e.e = "Acc" -> Accept(e.x, e.ok)
    [] e.e = "Dis" -> Disconnect(e.x)
    [] e.e = "Drop" -> ServerDrops(e.x)
    [] e.e = "RFault" -> RecvFault(e.x, e.srv)
    [] e.e = "Bad" -> BadClient(e.c)
    [] e.e = "BadS" -> BadServer(e.x)
    [] e.e = "Unsol" -> Unsolicited(e.x)
    [] e.e = "SendC" -> SendCall(e.c, e.m, e.k, e.len, e.cb)
    [] e.e = "SendR" -> SendRet(e.c, e.m, e.r, e.rdy, smax)
    [] e.e = "Fault" -> SendFault(e.x, e.srv, e.id)
    [] e.e = "Recv" -> Recv(e.x, e.m, e.req, e["in"])
    [] e.e = "RepC" -> Reply(e.x, e.m)
    [] e.e = "RepR" -> ReplyRet(e.x, e.m, e.ok)
    [] e.e = "BigR" -> TooBig(e.r)
    [] e.e = "Rep" -> Rep(e.c, e.m, e.ok, e.id, e["in"], e.err)
    [] e.e = "RepE" -> RepEnd(e.c, e.m)
    [] e.e = "WaitR" -> WaitRet(e.c, e.m, e.ok, e.id, e["in"], e.r, e.rdy, e.small, smax)
    [] e.e = "Ntf" -> Notify(e.x, e.n, e.big)
    [] e.e = "NtfR" -> NotifyRet(e.x, e.n, e.r)
    [] e.e = "NotB" -> Notified(e.c, e.n, e["in"])
    [] e.e = "NotE" -> NotifiedEnd(e.c)
    [] e.e = "Rest" -> Rest(e.c, e.s, e.why)
    [] e.e = "RawEnd" -> RawEnd(e.c, e.eof)
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1 /\ smax' = IF Trace[i].e = "Begin" THEN Trace[i].smax ELSE smax
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
