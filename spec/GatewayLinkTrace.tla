-------------------------- MODULE GatewayLinkTrace --------------------------
EXTENDS GatewayLink, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0
Step(e) ==
  CASE e.e = "Begin" -> pair' = e.pair /\ nd' = << >> /\ rq' = << >> /\ nf' = << >> /\ dq' = << >> /\ got' = {}
    [] e.e \in {"End", "Setup", "Gone"} -> UNCHANGED vars
    [] e.e = "New" -> New(e.n, e.h, e.to)
    [] e.e = "Req" -> ReqCall(e.n, e.c, e.id, e.t)
    [] e.e = "ReqR" -> ReqRet(e.n, e.c, e.res, e.t)
    [] e.e = "Ntf" -> NtfCall(e.n, e.c, e.id)
    [] e.e = "NtfR" -> NtfRet(e.n, e.c, e.res)
    [] e.e = "Down" -> Down(e.n)
    [] e.e = "DownR" -> DownRet(e.n)
    [] e.e = "SetupR" -> SetupRet(e.n, e.ok)
    [] e.e = "Tx" -> Tx(e.n, e.k, e.id, e.q)
    [] e.e = "TxR" -> TxRet(e.n, e.k, e.id, e.q, e.ok, e.t)
    [] e.e = "RxC" -> RxCall(e.n, e.t)
    [] e.e = "Rx" -> Rx(e.n, e.k, e.id, e.q, e.same)
    [] e.e = "Null" -> Null(e.n, e.t)
    [] e.e = "Hnd" -> Handle(e.n, e.id, e.same)
    [] e.e = "HndE" -> HandleEnd(e.n, e.id)
    [] e.e = "Probe" -> Probe(e.n, e.up, e.ok)
    [] e.e = "Rest" -> AtRest
    [] OTHER -> FALSE
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
=============================================================================
