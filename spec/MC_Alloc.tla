------------------------------ MODULE MC_Alloc ------------------------------
(* Bump allocation with a compare-and-swap of the amount taken (padding included) refines Alloc. *)
EXTENDS Alloc
CONSTANTS Procs, Sizes, Aligns, Low, High, MaxOps, MaxCrash, Mode   \* Mode: "cas" as implemented; others: deliberately wrong variants
VARIABLES top, pc, got, ops, crashes
mcvars == <<vars, top, pc, got, ops, crashes>>
S == INSTANCE Alloc WITH Enforced <- {"S05"}, Diag <- FALSE
Init == /\ Init0(Low, High) /\ top = Low /\ pc = [p \in Procs |-> "idle"] /\ got = [p \in Procs |-> 0] /\ ops = 0 /\ crashes = 0
Same == UNCHANGED vars
To(p, l) == pc' = [pc EXCEPT ![p] = l]
Start(p) == pc[p] = "idle" /\ ops < MaxOps /\ ops' = ops + 1 /\ (\E n \in Sizes, a \in Aligns : AllocCall(p, n, a)) /\ To(p, "load") /\ UNCHANGED <<top, got, crashes>>
Load(p) == pc[p] = "load" /\ got' = [got EXCEPT ![p] = top] /\ To(p, "try") /\ Same /\ UNCHANGED <<top, ops, crashes>>
Start1(p) == Up(got[p], pend[p].a)
End1(p) == IF Mode = "nopad" THEN got[p] + pend[p].n ELSE Start1(p) + pend[p].n
Try(p) ==
  /\ pc[p] = "try" /\ UNCHANGED <<ops, crashes>>
  /\ IF Start1(p) + pend[p].n > High
     THEN AllocFail(p) /\ To(p, "dead") /\ UNCHANGED <<top, got>>
     ELSE IF Mode = "store" \/ top = got[p]
     THEN top' = End1(p) /\ To(p, "ret") /\ got' = [got EXCEPT ![p] = Start1(p)] /\ Same
     ELSE got' = [got EXCEPT ![p] = top] /\ Same /\ UNCHANGED <<top, pc>>
Ret(p) == pc[p] = "ret" /\ AllocRet(p, got[p], got[p] % pend[p].a = 0) /\ To(p, "idle") /\ UNCHANGED <<top, got, ops, crashes>>
Die(p) == pc[p] \notin {"idle", "dead"} /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ Crash(p) /\ To(p, "dead") /\ UNCHANGED <<top, got, ops>>
Look == (\A p \in Procs : pc[p] \in {"idle", "dead"}) /\ AtRest(top - Low) /\ UNCHANGED <<top, pc, got, ops, crashes>>
Next == Look \/ \E p \in Procs : Start(p) \/ Load(p) \/ Try(p) \/ Ret(p) \/ Die(p)
Spec == Init /\ [][Next]_mcvars
SNext == \E p \in Procs : \/ (\E n \in Sizes, a \in Aligns : S!AllocCall(p, n, a)) \/ (\E o \in 0..High : S!AllocRet(p, o, o % pend[p].a = 0)) \/ S!AllocFail(p) \/ S!Crash(p)
Refines == [][SNext]_vars
ReportOk == (\A p \in Procs : pc[p] \in {"idle", "dead"}) => ENABLED S!AtRest(top - Low)
NothingOutside == \A b \in blocks : b.o >= Low /\ b.o + b.n <= High
=============================================================================
