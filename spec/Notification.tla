---------------------------- MODULE Notification ----------------------------
(***************************************************************************)
(* Event notifications between processes.  A provider (whose incarnations   *)
(* are counted) updates events; receivers are registered in this or other   *)
(* processes, deregistered, and re-registered with the next incarnation.    *)
(* Registering is asynchronous: a registration is established once          *)
(* everything came to rest after it returned.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES hs,     \* [receiver -> [ev, to: incarnation, st: "calling" | "reg" | "leaving" | "gone", est, due]]
          prov,   \* current incarnation of the provider
          moving  \* events updated since everything was last at rest
vars == <<hs, prov, moving>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Init0 == hs = <<>> /\ prov = 0 /\ moving = {}
Begin == hs' = <<>> /\ prov' = 0 /\ moving' = {}
\* a new incarnation of the provider offers; what was registered with the one before must be registered again
Prov(n) == /\ prov' = n
           /\ hs' = [h \in DOMAIN hs |-> [hs[h] EXCEPT !.est = FALSE, !.due = FALSE]]
           /\ UNCHANGED moving
RegC(h, ev, to) == /\ h \notin DOMAIN hs
                   /\ hs' = [x \in DOMAIN hs \cup {h} |-> IF x = h THEN [ev |-> ev, to |-> to, st |-> "calling", est |-> FALSE, due |-> FALSE] ELSE hs[x]]
                   /\ UNCHANGED <<prov, moving>>
RegR(h) == h \in DOMAIN hs /\ hs[h].st = "calling" /\ hs' = [hs EXCEPT ![h].st = "reg"] /\ UNCHANGED <<prov, moving>>
RerC(h, to) == h \in DOMAIN hs /\ hs[h].st = "reg" /\ hs' = [hs EXCEPT ![h].st = "calling", ![h].to = to, ![h].est = (@ /\ to = prov)] /\ UNCHANGED <<prov, moving>>
RerR(h) == RegR(h)
UnrC(h) == h \in DOMAIN hs /\ hs[h].st = "reg" /\ hs' = [hs EXCEPT ![h].st = "leaving", ![h].est = FALSE, ![h].due = FALSE] /\ UNCHANGED <<prov, moving>>
UnrR(h) == h \in DOMAIN hs /\ hs[h].st = "leaving" /\ hs' = [hs EXCEPT ![h].st = "gone"] /\ UNCHANGED <<prov, moving>>
\* the process of the receiver ended
Gone(h) == h \in DOMAIN hs /\ hs' = [hs EXCEPT ![h].st = "gone", ![h].est = FALSE, ![h].due = FALSE] /\ UNCHANGED <<prov, moving>>
\* an update: every established receiver of the event is to be called after this
UpC(ev) == /\ moving' = moving \cup {ev}
           /\ hs' = [h \in DOMAIN hs |-> IF hs[h].est /\ hs[h].ev = ev THEN [hs[h] EXCEPT !.due = TRUE] ELSE hs[h]]
           /\ UNCHANGED prov
UpR(ev) == ev \in moving /\ UNCHANGED vars
Call(h) == /\ h \in DOMAIN hs
           /\ R({"L01"}, hs[h].st # "gone")                    \* not any more once deregistering returned
           /\ R({"L01"}, hs[h].ev \in moving)                  \* only for its own event
           /\ hs' = [hs EXCEPT ![h].due = FALSE]
           /\ UNCHANGED <<prov, moving>>
\* nothing is on its way any more and no call is in progress
Quiet == /\ R({"L01"}, \A h \in DOMAIN hs : ~hs[h].due)
         /\ hs' = [h \in DOMAIN hs |-> IF hs[h].st = "reg" /\ hs[h].to = prov THEN [hs[h] EXCEPT !.est = TRUE] ELSE hs[h]]
         /\ moving' = {}
         /\ UNCHANGED prov
Stuck == R({"L01"}, FALSE) /\ UNCHANGED vars
=============================================================================
