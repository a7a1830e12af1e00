----------------------------- MODULE MC_PidMap -----------------------------
(* The registration algorithm (look for an own entry, else claim an unused one in three steps) refines PidMap. *)
EXTENDS PidMap
CONSTANTS Ids, MaxReg, MaxCrash
VARIABLES tab,   \* [entry -> [st, id, pid]]; st: 0 unused, 1 used, 2 being updated
          pc, pos, nreg, crashes
mcvars == <<vars, tab, pc, pos, nreg, crashes>>
S == INSTANCE PidMap WITH Enforced <- {"C09"}, Diag <- FALSE
CONSTANT N
Init == /\ Init0(N) /\ tab = [k \in 1..N |-> [st |-> 0, id |-> 0, pid |-> 0]]
        /\ pc = [a \in Ids |-> "idle"] /\ pos = [a \in Ids |-> 1] /\ nreg = [a \in Ids |-> 0] /\ crashes = 0
Same == UNCHANGED vars
To(a, l) == pc' = [pc EXCEPT ![a] = l]
P(a, k) == pos' = [pos EXCEPT ![a] = k]
Ret(a, r) == RegRet(a, r) /\ To(a, "idle") /\ P(a, 1)
Begin(a) == pc[a] = "idle" /\ nreg[a] < MaxReg /\ nreg' = [nreg EXCEPT ![a] = @ + 1]
            /\ RegCall(a, 10 * a + nreg[a] + 1) /\ To(a, "look") /\ P(a, 1) /\ UNCHANGED <<tab, crashes>>
Look(a) ==
  /\ pc[a] = "look" /\ UNCHANGED <<nreg, crashes>>
  /\ IF pos[a] > N THEN Same /\ To(a, "claim") /\ P(a, 1) /\ UNCHANGED tab
     ELSE LET t == tab[pos[a]] IN
          IF t.id = a /\ t.st = 1 THEN Ret(a, t.pid) /\ tab' = [tab EXCEPT ![pos[a]].pid = Call(a)]
          ELSE IF t.id = a /\ t.st = 2 THEN Same /\ tab' = [tab EXCEPT ![pos[a]].pid = Call(a)] /\ To(a, "publish") /\ UNCHANGED pos
          ELSE Same /\ P(a, pos[a] + 1) /\ UNCHANGED <<tab, pc>>
Claim(a) ==
  /\ pc[a] = "claim" /\ UNCHANGED <<nreg, crashes>>
  /\ IF pos[a] > N THEN Ret(a, -1) /\ UNCHANGED tab
     ELSE IF tab[pos[a]].st = 0 THEN Same /\ tab' = [tab EXCEPT ![pos[a]] = [st |-> 2, id |-> a, pid |-> @.pid]] /\ To(a, "setpid") /\ UNCHANGED pos
     ELSE Same /\ P(a, pos[a] + 1) /\ UNCHANGED <<tab, pc>>
SetPid(a) == pc[a] = "setpid" /\ Same /\ tab' = [tab EXCEPT ![pos[a]].pid = Call(a)] /\ To(a, "publish") /\ UNCHANGED <<pos, nreg, crashes>>
Publish(a) == pc[a] = "publish" /\ tab' = [tab EXCEPT ![pos[a]].st = 1] /\ Ret(a, Call(a)) /\ UNCHANGED <<nreg, crashes>>
Die(a) == crashes < MaxCrash /\ pc[a] # "idle" /\ crashes' = crashes + 1 /\ Crash(a) /\ To(a, "idle") /\ UNCHANGED <<tab, pos, nreg>>
Next == \E a \in Ids : Begin(a) \/ Look(a) \/ Claim(a) \/ SetPid(a) \/ Publish(a) \/ Die(a)
Spec == Init /\ [][Next]_mcvars
SNext == \E a \in Ids : \/ (\E p \in 11..(10 * a + MaxReg) : S!RegCall(a, p)) \/ (\E r \in {-1} \cup 11..(10 * a + MaxReg) : S!RegRet(a, r)) \/ S!Crash(a)
Refines == [][SNext]_vars
OneEntryEach == \A a \in Ids : Cardinality({k \in 1..N : tab[k].st # 0 /\ tab[k].id = a}) <= 1
=============================================================================
