----------------------------- MODULE MC_TxLogs -----------------------------
(***************************************************************************)
(* The algorithm of proxy creation (per process and service instance one   *)
(* mutex; whoever creates it prepares the recovery) and of log             *)
(* registration, explored for small constants and checked to refine        *)
(* TxLogs.  LockFirst = FALSE is the algorithm before the repair, in which *)
(* somebody else could take the mutex before its creator.                  *)
(***************************************************************************)
EXTENDS TxLogs
CONSTANTS Threads, Apps, NLogs, Events, MaxCrash, LockFirst
VARIABLES pc, pos, mtx, crashes
mcvars == <<vars, pc, pos, mtx, crashes>>

S == INSTANCE TxLogs WITH Enforced <- {"C05", "C06"}, Diag <- FALSE
AppOf(a) == Apps[a]
Logs == 0..(NLogs - 1)
AppSet == {Apps[a] : a \in Threads}

Init == /\ log = [e \in Events |-> [i \in Logs |-> FreeLog]]
        /\ act = [a \in Threads |-> NewAct(AppOf(a))]
        /\ pc = [a \in Threads |-> "start"]
        /\ pos = [a \in Threads |-> [ev |-> 0, i |-> 0]]
        /\ mtx = [p \in AppSet |-> [exists |-> FALSE, by |-> ""]]
        /\ crashes = 0

Keep == UNCHANGED <<log, act>>
Go(a, l) == pc' = [pc EXCEPT ![a] = l]
At(a, e, i) == pos' = [pos EXCEPT ![a] = [ev |-> e, i |-> i]]
Next1(a) == IF pos[a].i + 1 < NLogs THEN [ev |-> pos[a].ev, i |-> pos[a].i + 1] ELSE [ev |-> pos[a].ev + 1, i |-> 0]
Done(p) == p.ev \notin Events

StartCreate(a) == pc[a] = "start" /\ CreateCall(a) /\ Go(a, "getmutex") /\ UNCHANGED <<pos, mtx, crashes>>
GetMutex(a) ==
  LET m == mtx[AppOf(a)] IN
  /\ pc[a] = "getmutex" /\ Keep
  /\ IF m.exists THEN Go(a, "lock") /\ UNCHANGED mtx
     ELSE IF LockFirst THEN Go(a, "mark") /\ mtx' = [mtx EXCEPT ![AppOf(a)] = [exists |-> TRUE, by |-> a]]
     ELSE Go(a, "lockc") /\ mtx' = [mtx EXCEPT ![AppOf(a)].exists = TRUE]
  /\ At(a, 0, 0) /\ UNCHANGED crashes
Lock(a) ==
  /\ pc[a] \in {"lock", "lockc"} /\ mtx[AppOf(a)].by = ""
  /\ mtx' = [mtx EXCEPT ![AppOf(a)].by = a]
  /\ Go(a, IF pc[a] = "lock" THEN "roll" ELSE "mark") /\ Keep /\ UNCHANGED <<pos, crashes>>
MarkOne(a) ==
  /\ pc[a] = "mark"
  /\ IF Done(pos[a]) THEN Go(a, "roll") /\ At(a, 0, 0) /\ Keep
     ELSE /\ IF log[pos[a].ev][pos[a].i].id = AppOf(a) THEN Mark(a, pos[a].ev, pos[a].i, TRUE) ELSE Keep
          /\ pos' = [pos EXCEPT ![a] = Next1(a)] /\ UNCHANGED pc
  /\ UNCHANGED <<mtx, crashes>>
RollOne(a) ==
  /\ pc[a] = "roll"
  /\ IF Done(pos[a]) THEN Go(a, "rolled") /\ Keep /\ UNCHANGED pos
     ELSE LET l == log[pos[a].ev][pos[a].i] IN
          IF l.id = AppOf(a) /\ l.rb
          THEN Mark(a, pos[a].ev, pos[a].i, FALSE) /\ Go(a, "release") /\ UNCHANGED pos
          ELSE Keep /\ pos' = [pos EXCEPT ![a] = Next1(a)] /\ UNCHANGED pc
  /\ UNCHANGED <<mtx, crashes>>
ReleaseOne(a) ==
  /\ pc[a] = "release" /\ Release(a, pos[a].ev, pos[a].i)
  /\ At(a, pos[a].ev + 1, 0) /\ Go(a, "roll") /\ UNCHANGED <<mtx, crashes>>
EndCreate(a) ==
  /\ pc[a] = "rolled" /\ CreateRet(a, TRUE)
  /\ mtx' = [mtx EXCEPT ![AppOf(a)].by = ""]
  /\ Go(a, "ready") /\ UNCHANGED <<pos, crashes>>

StartReg(a) == \E e \in Events : /\ pc[a] = "ready" /\ OwnedBy(a, e) = {} /\ RegCall(a, e)
                                 /\ At(a, e, 0) /\ Go(a, "reg") /\ UNCHANGED <<mtx, crashes>>
TryReg(a) ==
  LET e == pos[a].ev
      i == pos[a].i IN
  /\ pc[a] = "reg"
  /\ IF i >= NLogs THEN RegRet(a, -1) /\ Go(a, "ready") /\ UNCHANGED pos
     ELSE IF log[e][i].id = 0 THEN Acquire(a, e, i, AppOf(a)) /\ Go(a, "regmark") /\ UNCHANGED pos
     ELSE Keep /\ At(a, e, i + 1) /\ UNCHANGED pc
  /\ UNCHANGED <<mtx, crashes>>
RegMark(a) == pc[a] = "regmark" /\ Mark(a, pos[a].ev, pos[a].i, FALSE) /\ Go(a, "regret") /\ UNCHANGED <<pos, mtx, crashes>>
EndReg(a) == pc[a] = "regret" /\ RegRet(a, pos[a].i) /\ Go(a, "ready") /\ UNCHANGED <<pos, mtx, crashes>>
StartUnreg(a) == \E e \in Events : /\ pc[a] = "ready" /\ OwnedBy(a, e) # {} /\ UnregCall(a, e)
                                   /\ At(a, e, CHOOSE i \in OwnedBy(a, e) : TRUE) /\ Go(a, "unreg") /\ UNCHANGED <<mtx, crashes>>
UnregMark(a) == pc[a] = "unreg" /\ Mark(a, pos[a].ev, pos[a].i, FALSE) /\ Go(a, "unreg2") /\ UNCHANGED <<pos, mtx, crashes>>
UnregFree(a) == pc[a] = "unreg2" /\ Release(a, pos[a].ev, pos[a].i) /\ Go(a, "unreg3") /\ UNCHANGED <<pos, mtx, crashes>>
EndUnreg(a) == pc[a] = "unreg3" /\ UnregRet(a) /\ Go(a, "ready") /\ UNCHANGED <<pos, mtx, crashes>>

\* the process dies and a new incarnation with the same threads starts
Die(p) ==
  LET T == {a \in Threads : AppOf(a) = p} IN
  /\ crashes < MaxCrash /\ crashes' = crashes + 1
  /\ log' = [ev \in DOMAIN log |-> [i \in DOMAIN log[ev] |-> IF log[ev][i].by \in T THEN [log[ev][i] EXCEPT !.by = ""] ELSE log[ev][i]]]
  /\ act' = [x \in DOMAIN act |-> IF x \in T THEN NewAct(p) ELSE act[x]]
  /\ pc' = [a \in Threads |-> IF a \in T THEN "start" ELSE pc[a]]
  /\ mtx' = [mtx EXCEPT ![p] = [exists |-> FALSE, by |-> ""]]
  /\ UNCHANGED pos

Next == \/ \E a \in Threads : \/ StartCreate(a) \/ GetMutex(a) \/ Lock(a) \/ MarkOne(a) \/ RollOne(a) \/ ReleaseOne(a) \/ EndCreate(a)
                             \/ StartReg(a) \/ TryReg(a) \/ RegMark(a) \/ EndReg(a) \/ StartUnreg(a) \/ UnregMark(a) \/ UnregFree(a) \/ EndUnreg(a)
        \/ \E p \in AppSet : Die(p)
Spec == Init /\ [][Next]_mcvars

SNext == \/ \E a \in Threads : \/ S!CreateCall(a) \/ S!UnregRet(a) \/ (\E ok \in BOOLEAN : S!CreateRet(a, ok))
                               \/ (\E e \in Events : S!RegCall(a, e) \/ S!UnregCall(a, e))
                               \/ (\E e \in Events, i \in Logs : S!Acquire(a, e, i, AppOf(a)) \/ S!Release(a, e, i) \/ (\E f \in BOOLEAN : S!Mark(a, e, i, f)))
                               \/ (\E i \in Logs \cup {-1} : S!RegRet(a, i))
         \/ \E p \in AppSet : \E n \in {crashes} : crashes' = n + 1
Refines == [][SNext]_<<log, act>>

T2 == ("t0" :> 1) @@ ("t1" :> 1)
T3 == ("t0" :> 1) @@ ("t1" :> 1) @@ ("t2" :> 2)
TS2 == {"t0", "t1"}
TS3 == {"t0", "t1", "t2"}
=============================================================================
