------------------------------ MODULE Deferred ------------------------------
(***************************************************************************)
(* Commands deferred to a point in time on an engine.  Any thread may      *)
(* register a command for an owner; the engine's thread processes the due  *)
(* ones and withdraws the commands of an owner.  A command's callback is   *)
(* destroyed ("gone") after it ran or when it was withdrawn.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  ent,    \* [command -> [st, o, due, c, r]]; c, r: when its registration was called / had returned
  clk,    \* counts observations
  proc,   \* [on, now, lb]: a processing pass is active; lb: the next command is picked after this moment
  running,\* the command whose callback is running, 0: none
  clean   \* sequence of [o, c]: withdrawals in progress
vars == <<ent, clk, proc, running, clean>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Idle == [on |-> FALSE, now |-> 0, lb |-> 0]
Init0 == ent = << >> /\ clk = 1 /\ proc = Idle /\ running = 0 /\ clean = << >>
With(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Tick == clk' = clk + 1
Waiting(j) == ent[j].st \in {"calling", "in"}
\* certainly in the queue when the next command is picked
Sure(j) == ent[j].st = "in" /\ ent[j].r < proc.lb

RegCall(j, o, due) ==
  /\ j \notin DOMAIN ent
  /\ ent' = With(ent, j, [st |-> "calling", o |-> o, due |-> due, c |-> clk, r |-> 0])
  /\ Tick /\ UNCHANGED <<proc, running, clean>>
RegRet(j) ==
  /\ j \in DOMAIN ent
  /\ ent' = [ent EXCEPT ![j].st = IF @ = "calling" THEN "in" ELSE @, ![j].r = clk]
  /\ Tick /\ UNCHANGED <<proc, running, clean>>
ProcCall(now) ==
  /\ ~proc.on /\ running = 0
  /\ proc' = [on |-> TRUE, now |-> now, lb |-> clk]
  /\ Tick /\ UNCHANGED <<ent, running, clean>>
Run(j, now) ==
  /\ R({"M04"}, proc.on /\ running = 0 /\ now = proc.now)
  /\ R({"M04"}, j \in DOMAIN ent /\ Waiting(j))                         \* once, and not after its withdrawal
  /\ R({"M04"}, j \in DOMAIN ent => ent[j].due <= now)                   \* not before it is due
  /\ R({"M04"}, j \in DOMAIN ent => \A k \in DOMAIN ent : (k # j /\ Sure(k)) =>
        /\ ent[k].due >= ent[j].due                                      \* in order of due times
        /\ (ent[k].due = ent[j].due => ~(ent[k].r < ent[j].c)))          \* first in first out among equals
  /\ ent' = IF j \in DOMAIN ent THEN [ent EXCEPT ![j].st = "run"] ELSE ent
  /\ running' = j
  /\ Tick /\ UNCHANGED <<proc, clean>>
RunRet(j) ==
  /\ running = j
  /\ running' = 0 /\ proc' = [proc EXCEPT !.lb = clk]
  /\ ent' = IF j \in DOMAIN ent THEN [ent EXCEPT ![j].st = "ran"] ELSE ent
  /\ Tick /\ UNCHANGED clean
Gone(j) ==
  /\ R({"M04"}, j \in DOMAIN ent /\ \/ ent[j].st = "ran"
                                    \/ Waiting(j) /\ \E k \in 1..Len(clean) : clean[k].o = ent[j].o)
  /\ ent' = IF j \in DOMAIN ent THEN [ent EXCEPT ![j].st = "gone"] ELSE ent
  /\ Tick /\ UNCHANGED <<proc, running, clean>>
ProcRet(next) ==
  /\ running = 0 /\ proc.on
  /\ R({"M04"}, \A j \in DOMAIN ent : Sure(j) => ent[j].due > proc.now)         \* everything due was run
  /\ R({"M04"}, IF next = 0 THEN \A j \in DOMAIN ent : ~Sure(j)
                ELSE /\ next > proc.now
                     /\ \E j \in DOMAIN ent : Waiting(j) /\ ent[j].due = next
                     /\ \A j \in DOMAIN ent : Sure(j) => ent[j].due >= next)
  /\ proc' = Idle
  /\ Tick /\ UNCHANGED <<ent, running, clean>>
CleanCall(o) == clean' = Append(clean, [o |-> o, c |-> clk]) /\ Tick /\ UNCHANGED <<ent, proc, running>>
CleanRet(o) ==
  LET k == Len(clean) IN
  /\ k > 0 /\ clean[k].o = o
  /\ R({"M04"}, \A j \in DOMAIN ent : ~(ent[j].st = "in" /\ ent[j].o = o /\ ent[j].r < clean[k].c))
  /\ clean' = SubSeq(clean, 1, k - 1)
  /\ Tick /\ UNCHANGED <<ent, proc, running>>
\* nothing is due any more and the queue was processed
End == R({"M04"}, \A j \in DOMAIN ent : ent[j].st = "gone") /\ UNCHANGED vars
=============================================================================
