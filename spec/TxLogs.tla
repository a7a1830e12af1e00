------------------------------- MODULE TxLogs -------------------------------
(***************************************************************************)
(* The recovery logs of one provider instance (per event a fixed number)   *)
(* and the consumer applications using them.  A thread of an application   *)
(* first creates its proxy, which recovers one log a dead predecessor left *)
(* behind in every event, and then registers and deregisters elements.     *)
(* A process dies as a whole; its logs are then left behind ("dead").      *)
(* Grain: one change of a log's owner word or recovery mark, or the        *)
(* call/return of an operation.  See EventSlots for R and Enforced.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Enforced, Diag
VARIABLES
  log,    \* [event -> [index -> [id, by, rb]]]; id = 0: free; by: owning thread, "" once its process has died
  act     \* [thread -> [app, op, ev, got, free, rel]]
vars == <<log, act>>

R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE

FreeLog == [id |-> 0, by |-> "", rb |-> FALSE]
NewAct(app) == [app |-> app, op |-> "idle", ev |-> 0, got |-> {}, free |-> {}, rel |-> {}]
Idle(r) == [r EXCEPT !.op = "idle", !.got = {}, !.free = {}, !.rel = {}]
Left(ev, app) == {i \in DOMAIN log[ev] : log[ev][i].id = app /\ log[ev][i].by = ""}
OwnedBy(a, ev) == {i \in DOMAIN log[ev] : log[ev][i].by = a}

Init0(events, n) == /\ log = [e \in events |-> [i \in 0..(n - 1) |-> FreeLog]]
                    /\ act = << >>

Start(a, app) ==
  /\ act' = [x \in DOMAIN act \cup {a} |-> IF x = a THEN NewAct(app) ELSE act[x]]
  /\ UNCHANGED log

CreateCall(a) ==
  /\ act[a].op = "idle"
  /\ act' = [act EXCEPT ![a].op = "cre"]
  /\ UNCHANGED log

RegCall(a, ev) ==
  /\ act[a].op = "idle"
  /\ act' = [act EXCEPT ![a].op = "reg", ![a].ev = ev, ![a].free = {i \in DOMAIN log[ev] : log[ev][i].id = 0}]
  /\ UNCHANGED log

UnregCall(a, ev) ==
  /\ act[a].op = "idle"
  /\ act' = [act EXCEPT ![a].op = "unreg", ![a].ev = ev, ![a].got = OwnedBy(a, ev)]
  /\ UNCHANGED log

\* The owner word of log i changes to id.
Acquire(a, ev, i, id) ==
  /\ R({"C06"}, log[ev][i].id = 0)
  /\ R({"C06"}, act[a].op = "reg" /\ act[a].ev = ev /\ act[a].got = {} /\ id = act[a].app)
  /\ log' = [log EXCEPT ![ev][i] = [id |-> id, by |-> a, rb |-> log[ev][i].rb]]
  /\ act' = [x \in DOMAIN act |-> LET r == act[x] IN
               IF r.op = "reg" /\ r.ev = ev THEN [r EXCEPT !.free = @ \ {i}, !.got = IF x = a THEN @ \cup {i} ELSE @] ELSE r]

Release(a, ev, i) ==
  /\ R({"C06"}, log[ev][i].id # 0)
  /\ R({"C06", "C05"},
       \/ act[a].op = "unreg" /\ act[a].ev = ev /\ log[ev][i].by = a
       \/ act[a].op = "cre" /\ log[ev][i].by = "" /\ log[ev][i].id = act[a].app)
  /\ log' = [log EXCEPT ![ev][i] = [FreeLog EXCEPT !.rb = log[ev][i].rb]]
  /\ act' = [act EXCEPT ![a].rel = @ \cup {<<ev, i>>}]

\* The recovery mark of log i changes to f.
Mark(a, ev, i, f) ==
  /\ R({"C06"}, f => act[a].op = "cre" /\ log[ev][i].id = act[a].app /\ log[ev][i].by = "")
  /\ log' = [log EXCEPT ![ev][i].rb = f]
  /\ UNCHANGED act

RegRet(a, i) ==
  /\ act[a].op = "reg"
  /\ IF i = -1 THEN R({"C06"}, act[a].free = {} /\ act[a].got = {})
     ELSE /\ R({"C06"}, act[a].got = {i} /\ log[act[a].ev][i].by = a)
          /\ R({"C06"}, ~log[act[a].ev][i].rb)          \* a fresh log is not taken for one left behind
  /\ act' = [act EXCEPT ![a] = Idle(@)]
  /\ UNCHANGED log

UnregRet(a) ==
  /\ act[a].op = "unreg"
  /\ R({"C06"}, OwnedBy(a, act[a].ev) = {})
  /\ act' = [act EXCEPT ![a] = Idle(@)]
  /\ UNCHANGED log

\* A successful creation has recovered one log in every event that had one left behind under this identity.
CreateRet(a, ok) ==
  /\ act[a].op = "cre"
  /\ R({"C06", "C05"}, ok => \A ev \in DOMAIN log : Left(ev, act[a].app) = {} \/ \E x \in act[a].rel : x[1] = ev)
  /\ R({"C06"}, ~ok => \E ev \in DOMAIN log : Left(ev, act[a].app) # {})
  /\ act' = [act EXCEPT ![a] = Idle(@)]
  /\ UNCHANGED log

\* The process of application app dies.
Crash(app) ==
  LET dead == {a \in DOMAIN act : act[a].app = app} IN
  /\ log' = [ev \in DOMAIN log |-> [i \in DOMAIN log[ev] |-> IF log[ev][i].by \in dead THEN [log[ev][i] EXCEPT !.by = ""] ELSE log[ev][i]]]
  /\ act' = [x \in DOMAIN act \ dead |-> act[x]]

(* Every live element owns its log alone: by construction one owner per log; here: what is owned carries the owner's identity *)
OwnersConsistent == \A ev \in DOMAIN log : \A i \in DOMAIN log[ev] :
  LET l == log[ev][i] IN
  /\ l.by # "" => (l.by \in DOMAIN act /\ l.id = act[l.by].app)
  /\ l.id = 0 => l.by = ""
MarkedAreLeft == \A ev \in DOMAIN log : \A i \in DOMAIN log[ev] :
  log[ev][i].rb => (log[ev][i].by = "" \/ act[log[ev][i].by].op = "reg")
=============================================================================
