------------------------------- MODULE Offering -------------------------------
(***************************************************************************)
(* One service instance: providers take it over, offer, withdraw, leave    *)
(* and crash; consumers connect, disconnect and crash.  The shared objects *)
(* of an offer (control per quality, data) are known by birth numbers, so  *)
(* a replaced object is told from a reused one.  Offering and withdrawing  *)
(* are calls; thru are the consumers which were connected during the whole *)
(* call, over those which may have been connected at some time of it.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  num,    \* objects of an offer
  prov,   \* [provider -> [st, alone]] st: "out", "taking", "in", "offering", "offered", "stopping", "leaving"
  cons,   \* [consumer -> [st, objs, calm, loose]] st: "out", "opening", "in", "closing"; calm: the service is there all the time
          \* while connecting; loose: connected while the service was being withdrawn, may go unnoticed
  call,   \* [thru, over, seen]: of the offer or withdrawal in progress
  seen,   \* all objects seen so far
  sets,   \* the complete sets of objects which were offered
  lock,   \* [strict, stale, torn, lost]: stale: a process crashed while it had an object locked for opening, and the object was not
          \* replaced since; strict: which of the known weaknesses are not tolerated: "lock" that this stops others from opening
          \* it, "half" that a consumer connected to what is left of a service keeps it from being offered anew,
          \* "take" that one provider leaving while another one takes over (torn) may let a third in as well (then lost: nothing
          \* is claimed from there on)
  cur     \* [objs, whole]: the objects left by the last offer; do they make a complete service?
vars == <<num, prov, cons, call, seen, sets, lock, cur>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
L3(cond) == R({"L03"}, lock.lost \/ cond)
NoCall == [thru |-> {}, over |-> {}, seen |-> {}]
Init0 == num = 0 /\ prov = << >> /\ cons = << >> /\ call = NoCall /\ seen = {} /\ sets = {} /\ lock = [strict |-> "", stale |-> FALSE, torn |-> FALSE, lost |-> FALSE] /\ cur = [objs |-> {}, whole |-> FALSE]
SetOf(s) == {s[x] : x \in DOMAIN s}
With(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
P(p) == IF p \in DOMAIN prov THEN prov[p].st ELSE "out"
C(c) == IF c \in DOMAIN cons THEN cons[c].st ELSE "out"
Others(p) == DOMAIN prov \ {p}
Owns == {"in", "offering", "offered", "stopping"}
Begin(n, strict) == num' = n /\ prov' = << >> /\ cons' = << >> /\ call' = NoCall /\ seen' = {} /\ sets' = {} /\ lock' = [strict |-> strict, stale |-> FALSE, torn |-> FALSE, lost |-> FALSE] /\ cur' = [objs |-> {}, whole |-> FALSE]
Busy == \E p \in DOMAIN prov : prov[p].st \in {"offering", "stopping"}
\* a service is there, and nobody is changing it
Up == \E p \in DOMAIN prov : prov[p].st = "offered"
Uneasy == cons' = [c \in DOMAIN cons |-> [cons[c] EXCEPT !.calm = FALSE]]
Whole(S) == \A T \in sets : S \subseteq T \/ S \cap T = {}
--------------------------------------------------------------------------------
TakeCall(p) ==
  /\ P(p) = "out"
  /\ prov' = With([o \in DOMAIN prov |-> [prov[o] EXCEPT !.alone = FALSE]], p, [st |-> "taking", alone |-> \A o \in Others(p) : prov[o].st = "out"])
  /\ lock' = [lock EXCEPT !.torn = @ \/ \E o \in Others(p) : prov[o].st = "leaving"]
  /\ UNCHANGED <<num, cons, call, seen, sets, cur>>
TakeRet(p, ok) ==
  /\ P(p) = "taking"
  \* one provider at a time, and only another one is a reason to refuse
  /\ LET two == ok /\ \E o \in Others(p) : prov[o].st \in Owns IN
     /\ L3((two => lock.torn /\ lock.strict # "take") /\ (~ok => ~prov[p].alone))
     /\ lock' = [lock EXCEPT !.lost = @ \/ two]
  /\ prov' = [prov EXCEPT ![p].st = IF ok THEN "in" ELSE "out"]
  /\ UNCHANGED <<num, cons, call, seen, sets, cur>>
Users == {c \in DOMAIN cons : cons[c].st = "in" /\ ~cons[c].loose}
Maybe == {c \in DOMAIN cons : cons[c].st # "out"}
OfferCall(p) ==
  /\ P(p) = "in" /\ prov' = [prov EXCEPT ![p].st = "offering"]
  /\ call' = [thru |-> Users, over |-> Maybe, seen |-> seen]
  /\ Uneasy /\ UNCHANGED <<num, seen, sets, cur, lock>>
OfferRet(p, ok, named, mine, free) ==
  LET S == SetOf(named) IN
  /\ P(p) = "offering" /\ prov' = [prov EXCEPT ![p].st = IF ok THEN "offered" ELSE "in"]
  /\ IF ok
     THEN /\ L3(S = SetOf(mine) /\ Cardinality(S) = num)
          \* whatever a predecessor left allocated when it crashed can be used again
          /\ L3(free)
          \* in use: reused; not in use: replaced; unclear: one or the other, but never a mixture
          /\ L3(\A c \in call.thru : cons[c].objs \subseteq S)
          /\ L3(call.over = {} => S \cap call.seen = {})
          /\ L3(S \cap call.seen = {} \/ S = cur.objs)
          /\ L3(\A T \in sets : S = T \/ S \cap T = {})
          /\ L3(\A c \in DOMAIN cons : cons[c].loose \/ cons[c].objs \subseteq S \/ cons[c].objs \cap S = {})
          /\ sets' = sets \cup {S} /\ cur' = [objs |-> S, whole |-> TRUE]
     \* only an incomplete service somebody tries to connect to can be in the way
     ELSE /\ L3(~cur.whole /\ call.over # {} /\ (lock.strict = "half" => call.thru = {}))
          /\ UNCHANGED <<sets, cur>>
  /\ seen' = seen \cup S /\ call' = NoCall
  /\ lock' = [lock EXCEPT !.stale = @ /\ ~(ok /\ S \cap call.seen = {})]
  /\ UNCHANGED <<num, cons>>
StopCall(p) ==
  /\ P(p) = "offered" /\ prov' = [prov EXCEPT ![p].st = "stopping"]
  /\ call' = [thru |-> Users, over |-> Maybe, seen |-> seen]
  /\ cons' = [c \in DOMAIN cons |-> [cons[c] EXCEPT !.calm = FALSE, !.loose = @ \/ cons[c].st = "opening"]]
  /\ UNCHANGED <<num, seen, sets, cur, lock>>
StopRet(p, named) ==
  LET S == SetOf(named) IN
  /\ P(p) = "stopping" /\ prov' = [prov EXCEPT ![p].st = "in"]
  \* in use: all stay; not in use: none does
  /\ L3(call.thru # {} => S = cur.objs)
  /\ L3(call.over = {} => S = {})
  /\ L3(S \in {{}, cur.objs})
  /\ cur' = [objs |-> S, whole |-> cur.whole /\ S # {}] /\ call' = NoCall
  /\ UNCHANGED <<num, cons, seen, sets, lock>>
LeaveCall(p) == /\ P(p) = "in" /\ prov' = [prov EXCEPT ![p].st = "leaving"]
                /\ lock' = [lock EXCEPT !.torn = @ \/ \E o \in Others(p) : prov[o].st = "taking"]
                /\ UNCHANGED <<num, cons, call, seen, sets, cur>>
LeaveRet(p) == P(p) = "leaving" /\ prov' = [prov EXCEPT ![p].st = "out"] /\ UNCHANGED <<num, cons, call, seen, sets, cur, lock>>
Locked(stale) == lock' = [lock EXCEPT !.stale = @ \/ stale]
KillProvider(p, named, stale) ==
  LET S == SetOf(named) IN
  /\ prov' = [prov EXCEPT ![p].st = "out"]
  \* a crash leaves the objects of the service as they were, unless it was just being set up or withdrawn
  /\ IF P(p) \in {"offering", "stopping"}
     THEN cur' = [objs |-> S, whole |-> cur.whole /\ S = cur.objs] /\ call' = NoCall /\ L3(call.thru # {} => cur.objs \subseteq S)
     ELSE L3(P(p) \in Owns => S = cur.objs) /\ UNCHANGED <<cur, call>>
  /\ seen' = seen \cup S /\ Locked(stale) /\ (IF stale THEN Uneasy ELSE UNCHANGED cons) /\ UNCHANGED <<num, sets>>
--------------------------------------------------------------------------------
\* call: one more consumer which may be connected while it is in progress
Overlap(c) == call' = IF Busy THEN [call EXCEPT !.over = @ \cup {c}] ELSE call
OpenCall(c) ==
  /\ C(c) = "out" /\ cons' = With(cons, c, [st |-> "opening", objs |-> {}, calm |-> Up /\ ~lock.stale, loose |-> \E p \in DOMAIN prov : prov[p].st = "stopping"])
  /\ Overlap(c) /\ UNCHANGED <<num, prov, seen, sets, cur, lock>>
OpenRet(c, ok, objs) ==
  LET S == SetOf(objs) IN
  /\ C(c) = "opening"
  \* it gets the control and the data of one and the same offer, of the current one if that was there all the time
  /\ L3(ok => Cardinality(S) = 2 /\ (Whole(S) \/ cons[c].loose))
  /\ L3(cons[c].calm => ok /\ S \subseteq cur.objs)
  /\ cons' = [cons EXCEPT ![c] = IF ok THEN [cons[c] EXCEPT !.st = "in", !.objs = S, !.calm = FALSE] ELSE [st |-> "out", objs |-> {}, calm |-> FALSE, loose |-> FALSE]]
  /\ seen' = seen \cup S /\ UNCHANGED <<num, prov, call, sets, cur, lock>>
CloseCall(c) == /\ C(c) = "in" /\ cons' = [cons EXCEPT ![c].st = "closing"]
                /\ call' = [call EXCEPT !.thru = @ \ {c}] /\ UNCHANGED <<num, prov, seen, sets, cur, lock>>
CloseRet(c) == C(c) = "closing" /\ cons' = [cons EXCEPT ![c].st = "out", ![c].objs = {}] /\ UNCHANGED <<num, prov, call, seen, sets, cur, lock>>
KillConsumer(c, stale) ==
  /\ cons' = [x \in DOMAIN cons |-> IF x = c THEN [st |-> "out", objs |-> {}, calm |-> FALSE, loose |-> FALSE] ELSE [cons[x] EXCEPT !.calm = @ /\ ~stale]]
  /\ call' = [call EXCEPT !.thru = @ \ {c}] /\ Locked(stale) /\ UNCHANGED <<num, prov, seen, sets, cur>>
\* waiting in vain for an object which a crashed provider left half made ends a process
ProviderDied(p) ==
  LET half == ~cur.whole /\ (lock.strict = "half" => call.thru = {})
      jammed == lock.stale /\ lock.strict # "lock" IN
  L3(P(p) = "offering" /\ call.over # {} /\ (half \/ jammed)) /\ UNCHANGED vars
ConsumerDied(c) == L3(C(c) = "opening" /\ ~cons[c].calm) /\ UNCHANGED vars
Bad == R({"L03"}, FALSE) /\ UNCHANGED vars
=============================================================================
