------------------------------- MODULE PidMap -------------------------------
(***************************************************************************)
(* The table of a provider instance that tells which process an            *)
(* application identity currently denotes.  Registrations of different     *)
(* identities run concurrently, those of one identity one after another;   *)
(* a process may die inside its registration, after which it is unknown    *)
(* whether the registration took effect.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  size,  \* entries of the table
  cur,   \* [identity -> set of processes it may denote now; 0: no entry]; exactly one element unless somebody died inside
  call   \* [identity -> process being registered, 0: none]
vars == <<size, cur, call>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Init0(n) == size = n /\ cur = << >> /\ call = << >>
Known(a) == a \in DOMAIN cur
With(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Cur(a) == IF Known(a) THEN cur[a] ELSE {0}
Call(a) == IF a \in DOMAIN call THEN call[a] ELSE 0
\* identities that may occupy an entry
Occupying == {a \in DOMAIN cur : cur[a] # {0}} \cup {a \in DOMAIN call : call[a] # 0}

RegCall(a, p) ==
  /\ Call(a) = 0
  /\ call' = With(call, a, p)
  /\ UNCHANGED <<size, cur>>
\* r: the process registered before, the process itself if there was none, -1: no entry available
RegRet(a, r) ==
  LET p == Call(a) IN
  /\ p # 0
  /\ IF r = -1
     THEN /\ R({"C09"}, 0 \in Cur(a))                                       \* an existing entry is always found
          /\ R({"C09"}, Cardinality(Occupying \ {a}) >= size)               \* the table is full of others
          /\ cur' = With(cur, a, {0})
     ELSE /\ R({"C09"}, \/ r \in Cur(a) \ {0}
                        \/ r = p /\ (0 \in Cur(a)))
          /\ cur' = With(cur, a, {p})
  /\ call' = With(call, a, 0)
  /\ UNCHANGED size
Crash(a) ==
  /\ cur' = IF Call(a) # 0 THEN With(cur, a, Cur(a) \cup {Call(a)}) ELSE cur
  /\ call' = With(call, a, 0)
  /\ UNCHANGED size
Certain == {a \in DOMAIN cur : 0 \notin cur[a]}
FitsTable == Cardinality(Certain) <= size
=============================================================================
