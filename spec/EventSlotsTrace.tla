-------------------------- MODULE EventSlotsTrace --------------------------
(* Is a recorded execution of the real control blocks a behaviour of EventSlots?  One trace line is one action. *)
EXTENDS EventSlots, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i
tvars == <<vars, i>>

NoRun == Init0({}, {"QM"}, 1, FALSE, [c \in {} |-> "QM"])
TraceInit == i = 1 /\ NoRun

Begin(e) ==
  LET slots == 0..(e.slots - 1)
      ctls == IF e.dual THEN {"QM", "B"} ELSE {"QM"} IN
  /\ cfg' = [slots |-> slots, ctls |-> ctls, maxsubs |-> e.maxsubs, enforce |-> e.enforce]
  /\ word' = [l \in ctls |-> [s \in slots |-> [ts |-> 0, rc |-> 0]]]
  /\ subw' = [l \in ctls |-> [subs |-> 0, slots |-> 0]]
  /\ data' = [s \in slots |-> [lo |-> 0, hi |-> 0]]
  /\ pub' = [s \in slots |-> [ts |-> 0, val |-> 0]]
  /\ prov' = IdleProv /\ own' = {} /\ top' = 0 /\ cut' = FALSE /\ stale' = FALSE
  /\ cons' = [c \in DOMAIN e.cons |-> NewConsumer(e.cons[c])]

ProvWord(l, s, v) ==
  IF v.rc = -1 THEN Reserve(l, s)
  ELSE IF prov.op = "alloc" THEN Unreserve(l, s, v)
  ELSE IF v.ts = 0 /\ v.rc = 0 THEN Clear(l, s)
  ELSE Publish(l, s, v)

ConsWord(c, l, s, v) == IF cons[c].call.op = "get" THEN Ref(c, l, s, v) ELSE Deref(c, l, s, v)

Word(e) ==
  LET v == [ts |-> e.ts, rc |-> e.rc] IN
  CASE e.a = "P" -> ProvWord(e.l, e.s, v)
    [] e.a = "X" -> Scribble(e.s, v)
    [] OTHER -> ConsWord(e.a, e.l, e.s, v)

Step(e) ==
  CASE e.e = "Begin" -> Begin(e)
    [] e.e = "End" -> UNCHANGED vars
    [] e.e = "W" -> Word(e)
    [] e.e = "SW" -> SubWord(e.a, e.l, [subs |-> e.subs, slots |-> e.slots])
    [] e.e = "AllocC" -> AllocCall
    [] e.e = "AllocR" -> AllocRet(e.s, e.cut)
    [] e.e = "Fill" -> Fill(e.s, e.h, e.v, e.hb)
    [] e.e = "PubC" -> PublishCall(e.s, e.ts)
    [] e.e = "PubR" -> PublishRet
    [] e.e = "DiscC" -> DiscardCall(e.s)
    [] e.e = "DiscR" -> DiscardRet
    [] e.e = "PCrash" -> ProvCrash
    [] e.e = "RestartC" -> RestartCall
    [] e.e = "RestartR" -> RestartRet(e.ts)
    [] e.e = "SubC" -> SubCall(e.c, e.n)
    [] e.e = "SubR" -> SubRet(e.c, e.res)
    [] e.e = "UnsubC" -> UnsubCall(e.c)
    [] e.e = "UnsubR" -> UnsubRet(e.c)
    [] e.e = "GetC" -> GetCall(e.c, e.max)
    [] e.e = "GetR" -> GetRet(e.c, e.r)
    [] e.e = "Read" -> Read(e.c, e.s, e.lo, e.hi, e.hb)
    [] e.e = "RelC" -> ReleaseCall(e.c, e.s)
    [] e.e = "RelR" -> ReleaseRet(e.c)
    [] e.e = "NumC" -> NumCall(e.c)
    [] e.e = "NumR" -> NumRet(e.c, e.n)
    [] e.e = "CCrash" -> ConsCrash(e.c)
    [] e.e = "RecC" -> RecoverCall(e.c)
    [] e.e = "RecR" -> RecoverRet(e.c, e.ok)
    [] OTHER -> FALSE          \* Abort, Hang: never a behaviour

Invs == /\ R({"C01"}, HeldIntact)
        /\ R({"C03", "C05"}, CountsExact)
        /\ R({"C03"}, WritingOwned)
        /\ R({"C07"}, SubsWithinLimits)
        /\ R({"C07", "C05"}, SubsExact)
        /\ R({"C02"}, StampsDistinct)

TraceNext == i <= Len(Trace) /\ Step(Trace[i]) /\ i' = i + 1 /\ Invs'
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted == LET d == TLCGet("stats").diameter - 1 IN
            /\ PrintT(<<"TRACE", d, Len(Trace)>>)
            /\ d = Len(Trace)
============================================================================
