----------------------------- MODULE MC_SampleHold -----------------------------
(* A shared count of free samples, taken by compare-and-swap before samples are handed out, refines SampleHold. *)
EXTENDS SampleHold
CONSTANTS Threads, Ks, Max, MaxOps, Mode    \* Mode: "ok" as implemented; "guardfirst", "store": deliberately wrong variants
VARIABLES free, pc, loc, rsv, rel, ops, nb
mcvars == <<vars, free, pc, loc, rsv, rel, ops, nb>>
S == INSTANCE SampleHold WITH Enforced <- {"C11"}, Diag <- FALSE
Init == /\ Init0 /\ free = 0 /\ pc = [t \in Threads |-> "idle"] /\ loc = [t \in Threads |-> 0] /\ rsv = [t \in Threads |-> 0]
        /\ rel = [t \in Threads |-> 0] /\ ops = 0 /\ nb = 0
Same == UNCHANGED vars
To(t, l) == pc' = [pc EXCEPT ![t] = l]
Sub == max = -1 /\ ops = 0 /\ Subscribe(Max, TRUE, FALSE) /\ free' = Max /\ UNCHANGED <<pc, loc, rsv, rel, ops, nb>>
StartGet(t) == max >= 0 /\ pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1 /\ (\E k \in Ks : Get(t, k) /\ loc' = [loc EXCEPT ![t] = k]) /\ To(t, "load") /\ UNCHANGED <<free, rsv, rel, nb>>
Load(t) == pc[t] = "load" /\ rsv' = [rsv EXCEPT ![t] = free] /\ To(t, "cas") /\ Same /\ UNCHANGED <<free, loc, rel, ops, nb>>
Cas(t) == /\ pc[t] = "cas" /\ UNCHANGED <<loc, rel, ops, nb>>
          /\ LET n == MinI(rsv[t], loc[t]) IN
             IF n = 0 THEN To(t, "full") /\ rsv' = [rsv EXCEPT ![t] = 0] /\ UNCHANGED free /\ Same
             ELSE IF Mode = "store" \/ free = rsv[t] THEN free' = rsv[t] - n /\ rsv' = [rsv EXCEPT ![t] = n] /\ To(t, "give") /\ Same
             ELSE rsv' = [rsv EXCEPT ![t] = free] /\ UNCHANGED <<free, pc>> /\ Same
Full(t) == pc[t] = "full" /\ Got(t, 0, TRUE, TRUE) /\ To(t, "idle") /\ UNCHANGED <<free, loc, rsv, rel, ops, nb>>
Put(t) == pc[t] = "give" /\ rsv[t] > 0 /\ Taken(nb + 1) /\ nb' = nb + 1 /\ loc' = [loc EXCEPT ![t] = nb + 1] /\ To(t, "hand") /\ UNCHANGED <<free, rsv, rel, ops>>
Hand(t) == pc[t] = "hand" /\ Given(t, loc[t]) /\ rsv' = [rsv EXCEPT ![t] = @ - 1] /\ To(t, "give") /\ UNCHANGED <<free, loc, rel, ops, nb>>
Run0(t) == pc[t] = "give" /\ rsv[t] = 0 /\ Short(t) /\ ~gets[t].short /\ UNCHANGED <<free, pc, loc, rsv, rel, ops, nb>>
Undo(t) == pc[t] = "give" /\ free' = free + rsv[t] /\ rsv' = [rsv EXCEPT ![t] = 0] /\ To(t, "ret") /\ Same /\ UNCHANGED <<loc, rel, ops, nb>>
Ret(t) == pc[t] = "ret" /\ Got(t, gets[t].n, FALSE, FALSE) /\ To(t, "idle") /\ UNCHANGED <<free, loc, rsv, rel, ops, nb>>
StartRel(t) == pc[t] = "idle" /\ (\E b \in held : Rel(b) /\ rel' = [rel EXCEPT ![t] = b]) /\ To(t, "rel1") /\ UNCHANGED <<free, loc, rsv, ops, nb>>
Buf(t) == pc[t] = (IF Mode = "guardfirst" THEN "rel2" ELSE "rel1") /\ Back(rel[t]) /\ To(t, IF Mode = "guardfirst" THEN "rel3" ELSE "rel2") /\ UNCHANGED <<free, loc, rsv, rel, ops, nb>>
Guard(t) == pc[t] = (IF Mode = "guardfirst" THEN "rel1" ELSE "rel2") /\ free' = free + 1 /\ To(t, IF Mode = "guardfirst" THEN "rel2" ELSE "rel3") /\ Same /\ UNCHANGED <<loc, rsv, rel, ops, nb>>
RelEnd(t) == pc[t] = "rel3" /\ Gone(rel[t]) /\ To(t, "idle") /\ UNCHANGED <<free, loc, rsv, rel, ops, nb>>
Ask1(t) == max >= 0 /\ pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1 /\ Ask(t) /\ To(t, "ask") /\ UNCHANGED <<free, loc, rsv, rel, nb>>
Ask2(t) == pc[t] = "ask" /\ loc' = [loc EXCEPT ![t] = free] /\ To(t, "asked") /\ Same /\ UNCHANGED <<free, rsv, rel, ops, nb>>
Ask3(t) == pc[t] = "asked" /\ Free(t, loc[t]) /\ To(t, "idle") /\ UNCHANGED <<free, loc, rsv, rel, ops, nb>>
Next == Sub \/ \E t \in Threads : StartGet(t) \/ Load(t) \/ Cas(t) \/ Full(t) \/ Put(t) \/ Hand(t) \/ Run0(t) \/ Undo(t) \/ Ret(t) \/ StartRel(t) \/ Buf(t) \/ Guard(t) \/ RelEnd(t) \/ Ask1(t) \/ Ask2(t) \/ Ask3(t)
Spec == Init /\ [][Next]_mcvars
SNext == \/ S!Subscribe(Max, TRUE, FALSE)
         \/ \E t \in Threads : \/ \E k \in Ks : S!Get(t, k)
                               \/ \E b \in 1..(nb + 1) : S!Given(t, b)
                               \/ S!Short(t)
                               \/ t \in DOMAIN gets /\ \E fl \in BOOLEAN : S!Got(t, gets[t].n, fl, fl)
                               \/ S!Ask(t)
                               \/ \E n \in -1..(Max + 1) : S!Free(t, n)
         \/ \E b \in 1..(nb + 1) : S!Taken(b) \/ S!Rel(b) \/ S!Back(b) \/ S!Gone(b)
Refines == [][SNext]_vars
FreeOk == free >= 0 /\ ((\A t \in Threads : pc[t] = "idle") /\ max >= 0 => free = max - Cardinality(held))
=============================================================================
