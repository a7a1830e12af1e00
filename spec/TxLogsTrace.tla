---------------------------- MODULE TxLogsTrace ----------------------------
(* Is a recorded execution a behaviour of TxLogs? *)
EXTENDS TxLogs, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>
TraceInit == i = 1 /\ Init0({}, 1)
Begin(e) == /\ log' = [v \in 0..(e.events - 1) |-> [k \in 0..(e.logs - 1) |-> FreeLog]]
            /\ act' = << >>
Step(e) ==
  CASE e.e = "Begin" -> Begin(e)
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "Sub" -> UNCHANGED vars
    [] e.e = "Start" -> Start(e.a, e.app)
    [] e.e = "CreC" -> CreateCall(e.a)
    [] e.e = "CreR" -> CreateRet(e.a, e.ok)
    [] e.e = "RegC" -> RegCall(e.a, e.ev)
    [] e.e = "RegR" -> RegRet(e.a, e.i)
    [] e.e = "UnregC" -> UnregCall(e.a, e.ev)
    [] e.e = "UnregR" -> UnregRet(e.a)
    [] e.e = "W" -> IF e.id = 0 THEN Release(e.a, e.ev, e.i) ELSE Acquire(e.a, e.ev, e.i, e.id)
    [] e.e = "F" -> Mark(e.a, e.ev, e.i, e.f)
    [] e.e = "Crash" -> Crash(e.app)
    [] OTHER -> FALSE
Invs == R({"C06"}, OwnersConsistent) /\ R({"C06"}, MarkedAreLeft)
TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1 /\ Invs'
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
============================================================================
