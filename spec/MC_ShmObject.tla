---------------------------- MODULE MC_ShmObject ----------------------------
(* The system calls behind creating and opening (lock file, exclusive creation, initialisation, removal of the lock file) refine ShmObject. *)
EXTENDS ShmObject
CONSTANTS Procs, MaxOps, MaxCrash, Kinds,
          Again,       \* create-or-open starts over when it finds neither (as repaired); FALSE: it gives up
          LockFirst    \* removing stale artefacts removes the lock file before the object (as before the repair)
VARIABLES lock,    \* the lock file: 0 none, else who made it (-1: left behind)
          name,    \* what the name refers to: 0 none
          next, pc, nops, crashes
mcvars == <<vars, lock, name, next, pc, nops, crashes>>
S == INSTANCE ShmObject WITH Enforced <- {"S03"}, Diag <- FALSE
Idle == [l |-> "idle", got |-> 0, round |-> 0]
Init == /\ Init0 /\ lock = 0 /\ name = 0 /\ next = 1 /\ pc = [p \in Procs |-> Idle] /\ nops = 0 /\ crashes = 0
Same == UNCHANGED vars
To(p, l) == pc' = [pc EXCEPT ![p].l = l]
K(p) == ops[p].k
\* an operation of process p is named p: one thread per process
Start(p) ==
  /\ pc[p].l = "idle" /\ nops < MaxOps /\ nops' = nops + 1 /\ UNCHANGED <<lock, name, next, crashes>>
  /\ \E k \in Kinds :
     /\ Holds(p) = {} \/ k = "r"
     /\ k = "r" => Holds(p) # {} /\ Creators(ops) = {} /\ Removers(ops) = {}
     /\ k = "s" => (IF lock = -1 THEN Creators(ops) = {} /\ Removers(ops) = {} ELSE ops = << >>)
     /\ k \in {"c", "x"} => Removers(ops) = {}
     /\ k \notin {"r"} => ~\E t \in DOMAIN ops : ops[t].k = "s"
     /\ Call(p, p, k, TRUE)
     /\ pc' = [pc EXCEPT ![p] = [l |-> (CASE k = "c" -> "clock" [] k \in {"o", "x"} -> "olock" [] k = "r" -> "unlink" [] OTHER -> "stale1"), got |-> 0, round |-> 0]]
Fin(p, i) == Ret(p, i, i # 0 /\ objs[i].done, FALSE) /\ pc' = [pc EXCEPT ![p] = Idle]
\* opening
OLock(p) == pc[p].l = "olock" /\ UNCHANGED <<name, next, nops, crashes>>
            /\ \/ lock = 0 /\ lock' = p /\ To(p, "oopen") /\ Same
               \/ lock # 0 /\ stuck /\ Dies(p, FALSE) /\ To(p, "dead") /\ UNCHANGED lock
OOpen(p) == pc[p].l = "oopen" /\ pc' = [pc EXCEPT ![p].l = "ounlock", ![p].got = name] /\ Same /\ UNCHANGED <<lock, name, next, nops, crashes>>
OUnlock(p) ==
  /\ pc[p].l = "ounlock" /\ lock' = 0 /\ UNCHANGED <<name, next, nops, crashes>>
  /\ IF pc[p].got = 0 /\ K(p) = "x" /\ (pc[p].round = 0 \/ Again) THEN To(p, "clock") /\ Same
     ELSE Fin(p, pc[p].got)
\* creating
CLock(p) ==
  /\ pc[p].l = "clock" /\ UNCHANGED <<name, next, nops, crashes>>
  /\ IF lock # 0 THEN UNCHANGED lock /\ IF K(p) = "x" THEN Same /\ pc' = [pc EXCEPT ![p].l = "olock", ![p].round = 1] ELSE Fin(p, 0)
     ELSE lock' = p /\ To(p, "copen") /\ Same
COpen(p) ==
  /\ pc[p].l = "copen" /\ UNCHANGED <<lock, nops, crashes>> /\ Same
  /\ IF name # 0 THEN To(p, "cfail") /\ UNCHANGED <<name, next>>
     ELSE name' = next /\ next' = next + 1 /\ pc' = [pc EXCEPT ![p].l = "init", ![p].got = next]
CFail(p) == pc[p].l = "cfail" /\ lock' = 0 /\ UNCHANGED <<name, next, nops, crashes>>
            /\ IF K(p) = "x" THEN Same /\ pc' = [pc EXCEPT ![p].l = "olock", ![p].round = 1] ELSE Fin(p, 0)
CInit(p) == pc[p].l = "init" /\ InitBegin(p, pc[p].got) /\ To(p, "init2") /\ UNCHANGED <<lock, name, next, nops, crashes>>
CInit2(p) == pc[p].l = "init2" /\ InitEnd(p) /\ To(p, "cunlock") /\ UNCHANGED <<lock, name, next, nops, crashes>>
CUnlock(p) == pc[p].l = "cunlock" /\ lock' = 0 /\ Fin(p, pc[p].got) /\ UNCHANGED <<name, next, nops, crashes>>
\* removing
Unlink(p) == pc[p].l = "unlink" /\ name' = 0 /\ Removed(p) /\ pc' = [pc EXCEPT ![p] = Idle] /\ UNCHANGED <<lock, next, nops, crashes>>
Stale1(p) == pc[p].l = "stale1" /\ Same /\ To(p, "stale2") /\ UNCHANGED <<next, nops, crashes>>
             /\ IF LockFirst THEN lock' = 0 /\ UNCHANGED name ELSE name' = 0 /\ UNCHANGED lock
Stale2(p) == pc[p].l = "stale2" /\ Cleared(p) /\ pc' = [pc EXCEPT ![p] = Idle] /\ UNCHANGED <<next, nops, crashes>>
             /\ IF LockFirst THEN name' = 0 /\ UNCHANGED lock ELSE lock' = 0 /\ UNCHANGED name
Release(p) == pc[p].l = "idle" /\ Holds(p) # {} /\ Drop(p) /\ UNCHANGED <<lock, name, next, pc, nops, crashes>>
Die(p) == pc[p].l \notin {"idle", "dead"} /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ Crash(p)
          /\ lock' = (IF lock = p THEN -1 ELSE lock) /\ To(p, "dead") /\ UNCHANGED <<name, next, nops>>
Next == \E p \in Procs : Start(p) \/ OLock(p) \/ OOpen(p) \/ OUnlock(p) \/ CLock(p) \/ COpen(p) \/ CFail(p) \/ CInit(p) \/ CInit2(p) \/ CUnlock(p)
                         \/ Unlink(p) \/ Stale1(p) \/ Stale2(p) \/ Release(p) \/ Die(p)
Spec == Init /\ [][Next]_mcvars
SNext == \E t \in Procs :
   \/ (\E k \in {"c", "o", "x", "r", "s"} : S!Call(t, t, k, TRUE)) \/ (\E i \in 1..next : S!InitBegin(t, i)) \/ S!InitEnd(t)
   \/ (\E i \in 0..next, w \in BOOLEAN : S!Ret(t, i, w, FALSE)) \/ S!Removed(t) \/ S!Cleared(t) \/ S!Drop(t) \/ S!Crash(t) \/ S!Dies(t, FALSE)
Refines == [][SNext]_vars
Quiet == \A p \in Procs : pc[p].l \in {"idle", "dead"}
NamesOk == Quiet => ENABLED S!NamesAtRest(name # 0, lock # 0)
=============================================================================
