----------------------------- MODULE MC_FileLock -----------------------------
(* The system calls behind lock files and file mutexes, on a file system with names, incarnations and advisory locks, refine FileLock. *)
EXTENDS FileLock
CONSTANTS Procs, MaxOps, MaxCrash, Path, ChmodFails, Leaky   \* Path: the way the file is used; Leaky: a failing chmod leaves the file behind
VARIABLES name, nextino, lk,  \* the path's incarnation (0: none); locks: [handle -> "0"|"S"|"X"]
          pc, nh, crashes
mcvars == <<vars, name, nextino, lk, pc, nh, crashes>>
S == INSTANCE FileLock WITH Enforced <- {"S04"}, Diag <- FALSE
Idle == [l |-> "idle", h |-> 0, x |-> "0", ino |-> 0]
Init == /\ Init0 /\ name = 0 /\ nextino = 1 /\ lk = << >> /\ pc = [p \in Procs |-> Idle] /\ nh = 0 /\ crashes = 0
Same == UNCHANGED vars
To(p, l) == pc' = [pc EXCEPT ![p].l = l]
K == IF Path = "A" THEN "c" ELSE "o"
Own == Path # "B"
Open(p) == /\ pc[p].l = "idle" /\ nh < MaxOps /\ nh' = nh + 1 /\ OpenCall(nh + 1, p, Path, K, Own)
           /\ pc' = [pc EXCEPT ![p] = [l |-> "open", h |-> nh + 1, x |-> "0", ino |-> 0]] /\ UNCHANGED <<name, nextino, lk, crashes>>
SysOpen(p) ==
  /\ pc[p].l = "open" /\ UNCHANGED <<nh, crashes, lk>>
  /\ IF name # 0 /\ K = "c" THEN OpenRet(pc[p].h, FALSE, 0, FALSE) /\ pc' = [pc EXCEPT ![p] = Idle] /\ UNCHANGED <<name, nextino>>
     ELSE /\ Same /\ name' = (IF name = 0 THEN nextino ELSE name) /\ nextino' = (IF name = 0 THEN nextino + 1 ELSE nextino)
          /\ pc' = [pc EXCEPT ![p].l = "chmod", ![p].ino = name']
Chmod(p) ==
  /\ pc[p].l = "chmod" /\ UNCHANGED <<nextino, nh, crashes>>
  /\ \/ name # 0 /\ OpenRet(pc[p].h, TRUE, pc[p].ino, FALSE) /\ lk' = With(lk, pc[p].h, "0") /\ To(p, "use") /\ UNCHANGED name
     \/ /\ ChmodFails \/ name = 0
        /\ OpenRet(pc[p].h, FALSE, 0, name # 0) /\ pc' = [pc EXCEPT ![p] = Idle] /\ UNCHANGED lk
        /\ name' = IF Path = "A" /\ ~Leaky THEN 0 ELSE name
Free(h, x) == \A g \in DOMAIN lk \ {h} : hs[g].ino = hs[h].ino => ~Conflict(x, lk[g])
Lock(p) == pc[p].l = "use" /\ Path # "A" /\ (\E x \in {"S", "X"}, t \in BOOLEAN : LockCall(pc[p].h, x, t) /\ pc' = [pc EXCEPT ![p].l = IF t THEN "try" ELSE "lock", ![p].x = x]) /\ UNCHANGED <<name, nextino, lk, nh, crashes>>
SysLock(p) ==
  /\ pc[p].l \in {"try", "lock"} /\ UNCHANGED <<name, nextino, nh, crashes>>
  /\ IF Free(pc[p].h, pc[p].x) THEN lk' = With(lk, pc[p].h, pc[p].x) /\ LockRet(pc[p].h, TRUE, FALSE) /\ To(p, "held")
     ELSE pc[p].l = "try" /\ LockRet(pc[p].h, FALSE, FALSE) /\ To(p, "use") /\ UNCHANGED lk
Unlock(p) == pc[p].l = "held" /\ UnlockCall(pc[p].h) /\ To(p, "unlock") /\ UNCHANGED <<name, nextino, lk, nh, crashes>>
SysUnlock(p) == pc[p].l = "unlock" /\ lk' = With(lk, pc[p].h, "0") /\ UnlockRet(pc[p].h) /\ To(p, "use") /\ UNCHANGED <<name, nextino, nh, crashes>>
Close(p) == pc[p].l \in {"use", "held"} /\ CloseCall(pc[p].h) /\ To(p, "close") /\ UNCHANGED <<name, nextino, lk, nh, crashes>>
SysClose(p) == pc[p].l = "close" /\ lk' = Less(lk, {pc[p].h}) /\ Same /\ To(p, IF Own THEN "unlink" ELSE "closed") /\ UNCHANGED <<name, nextino, nh, crashes>>
Unlink(p) == pc[p].l = "unlink" /\ Same /\ name' = 0 /\ To(p, "closed") /\ UNCHANGED <<nextino, lk, nh, crashes>>
Closed(p) == pc[p].l = "closed" /\ CloseRet(pc[p].h) /\ pc' = [pc EXCEPT ![p] = Idle] /\ UNCHANGED <<name, nextino, lk, nh, crashes>>
Die(p) == pc[p].l \notin {"idle", "dead"} /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ Crash(p) /\ lk' = Less(lk, {pc[p].h}) /\ To(p, "dead") /\ UNCHANGED <<name, nextino, nh>>
Next == \E p \in Procs : Open(p) \/ SysOpen(p) \/ Chmod(p) \/ Lock(p) \/ SysLock(p) \/ Unlock(p) \/ SysUnlock(p) \/ Close(p) \/ SysClose(p) \/ Unlink(p) \/ Closed(p) \/ Die(p)
Spec == Init /\ [][Next]_mcvars
SNext == \E h \in 1..MaxOps : \/ (\E p \in Procs : S!OpenCall(h, p, Path, K, Own))
                             \/ (\E ino \in 0..MaxOps : S!OpenRet(h, TRUE, ino, FALSE)) \/ (\E t \in BOOLEAN : S!OpenRet(h, FALSE, 0, t))
                             \/ S!CloseCall(h) \/ S!CloseRet(h) \/ (\E x \in {"S", "X"} : S!LockCall(h, x, FALSE))
                             \/ (\E ok \in BOOLEAN : S!LockRet(h, ok, FALSE)) \/ S!UnlockCall(h) \/ S!UnlockRet(h) \/ (\E p \in Procs : S!Crash(p))
Refines == [][SNext]_vars
NameOk == (\A p \in Procs : pc[p].l \in {"idle", "use", "dead"}) /\ Path = "A" => (IF name # 0 THEN left.sure + left.maybe > 0 \/ \E h \in Hs : hs[h].k = "c"
                             ELSE left.sure = 0 /\ \A h \in Hs : ~Owning(h))
=============================================================================
