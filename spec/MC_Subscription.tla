---------------------------- MODULE MC_Subscription ----------------------------
(* A state machine behind one lock, called by an application thread and by discovery, is explained by Subscription: the set *)
(* of configurations never becomes empty.                                                                                   *)
EXTENDS Subscription
CONSTANTS Threads, Ns, MaxOps, Slots, Mode   \* Mode: "ok"; wrong: "nolock", "noav", "tellafter", "failchanges", "pendunsub"
VARIABLES st, av, n, h, rh, lock, pc, arg, loc, ops, nh
mcvars == <<vars, st, av, n, h, rh, lock, pc, arg, loc, ops, nh>>
Init == /\ cap = [slots |-> Slots, subs |-> 1] /\ \E a \in BOOLEAN : av = a /\ conf = (0 :> {Fresh(a)}) /\ hi = (0 :> 0) /\ may = (0 :> FALSE)
        /\ st = "ns" /\ n = 0 /\ h = 0 /\ rh = 0 /\ lock = -1 /\ ops = 0 /\ nh = 0
        /\ pc = [t \in Threads |-> "idle"] /\ arg = [t \in Threads |-> None] /\ loc = [t \in Threads |-> "ns"]
To(t, l) == pc' = [pc EXCEPT ![t] = l]
Mine == UNCHANGED <<st, av, n, h, rh>>
Ops(t) == IF t = 1 THEN {IF av THEN "down" ELSE "up"} ELSE {"sub", "unsub", "get", "set", "unset", "rh", "unrh"}
Start(t) ==
  /\ pc[t] = "idle" /\ ops < MaxOps /\ ops' = ops + 1
  /\ \E op \in Ops(t), k \in (IF t # 1 THEN Ns ELSE {0}) :
       /\ op # "sub" => k = CHOOSE x \in (IF t # 1 THEN Ns ELSE {0}) : TRUE
       /\ LET m == IF op = "sub" THEN k ELSE 0
              hh == IF op \in {"set", "rh"} THEN nh + 1 ELSE 0 IN
          /\ arg' = [arg EXCEPT ![t] = [None EXCEPT !.op = op, !.n = m, !.h = hh]]
          /\ nh' = IF hh # 0 THEN nh + 1 ELSE nh
          /\ Call(0, t, op, m, hh)
  /\ To(t, "lock") /\ Mine /\ UNCHANGED <<lock, loc>>
Free0(t) == Mode = "nolock" /\ arg[t].op = "unsub"
Lock(t) == pc[t] = "lock" /\ (Free0(t) \/ lock = -1) /\ lock' = (IF Free0(t) THEN lock ELSE t) /\ loc' = [loc EXCEPT ![t] = st] /\ To(t, "act") /\ Mine /\ UNCHANGED <<vars, arg, ops, nh>>
Res(t, v) == arg' = [arg EXCEPT ![t].v = v]
Change(t, s) == st' = s /\ Res(t, "ok") /\ To(t, IF h # 0 THEN "tell" ELSE "unlock")
Stay(t, v) == Res(t, v) /\ To(t, "unlock") /\ UNCHANGED st
Act(t) ==
  LET a == arg[t] IN
  /\ pc[t] = "act" /\ UNCHANGED <<vars, lock, loc, ops, nh>>
  /\ CASE a.op = "sub" ->
            IF loc[t] = "ns"
            THEN IF a.n > Slots THEN Stay(t, "err") /\ (IF Mode = "failchanges" THEN rh' = 0 ELSE UNCHANGED rh) /\ UNCHANGED <<av, n, h>>
                 ELSE Change(t, IF av \/ Mode = "noav" THEN "sub" ELSE "pend") /\ n' = a.n /\ UNCHANGED <<av, h, rh>>
            ELSE Stay(t, IF a.n = n THEN "ok" ELSE "err") /\ UNCHANGED <<av, n, h, rh>>
       [] a.op = "unsub" -> IF loc[t] = "ns" \/ (Mode = "pendunsub" /\ loc[t] = "pend") THEN Stay(t, "ok") /\ UNCHANGED <<av, n, h, rh>>
                            ELSE Change(t, "ns") /\ n' = 0 /\ rh' = 0 /\ UNCHANGED <<av, h>>
       [] a.op = "get" -> Stay(t, st) /\ UNCHANGED <<av, n, h, rh>>
       [] a.op = "set" -> Stay(t, "ok") /\ h' = a.h /\ UNCHANGED <<av, n, rh>>
       [] a.op = "unset" -> Stay(t, "ok") /\ h' = 0 /\ UNCHANGED <<av, n, rh>>
       [] a.op = "rh" -> Stay(t, "ok") /\ rh' = a.h /\ UNCHANGED <<av, n, h>>
       [] a.op = "unrh" -> Stay(t, "ok") /\ rh' = 0 /\ UNCHANGED <<av, n, h>>
       [] a.op = "up" -> av' = TRUE /\ (IF loc[t] = "pend" THEN Change(t, "sub") ELSE Stay(t, "ok")) /\ UNCHANGED <<n, h, rh>>
       [] a.op = "down" -> av' = FALSE /\ (IF loc[t] = "sub" THEN Change(t, "pend") ELSE Stay(t, "ok")) /\ UNCHANGED <<n, h, rh>>
\* the handler is called while the lock is held
Early(t) == Mode = "tellafter" /\ pc[t] = "tell" /\ lock = t /\ lock' = -1 /\ Mine /\ UNCHANGED <<vars, pc, arg, loc, ops, nh>>
Tell(t) == /\ pc[t] = "tell" /\ (Mode = "tellafter" => lock # t)
           /\ IF h = 0 THEN UNCHANGED <<vars, h>> ELSE \E keep \in BOOLEAN : Told(0, h, st, keep) /\ h' = (IF keep THEN h ELSE 0)
           /\ To(t, "unlock") /\ UNCHANGED <<st, av, n, rh, lock, arg, loc, ops, nh>>
Unlock(t) == pc[t] = "unlock" /\ lock' = (IF lock = t THEN -1 ELSE lock) /\ To(t, "ret") /\ Mine /\ UNCHANGED <<vars, arg, loc, ops, nh>>
Return(t) == pc[t] = "ret" /\ Ret(0, t, arg[t].v) /\ To(t, "idle") /\ Mine /\ UNCHANGED <<lock, arg, loc, ops, nh>>
Rest == /\ \A t \in Threads : pc[t] = "idle"
        /\ Quiet(0, IF st = "sub" /\ rh # 0 THEN <<rh>> ELSE <<>>) /\ Mine /\ UNCHANGED <<lock, pc, arg, loc, ops, nh>>
Next == Rest \/ \E t \in Threads : Start(t) \/ Lock(t) \/ Act(t) \/ Early(t) \/ Tell(t) \/ Unlock(t) \/ Return(t)
Spec == Init /\ [][Next]_mcvars
Explained == conf[0] # {}
SameState == (\A t \in Threads : pc[t] = "idle") => \E k \in conf[0] : k.tell = "" /\ k.st = st /\ k.n = n /\ k.av = av /\ k.h = h /\ k.rh = rh
Consistent == (st = "ns") = (n = 0) /\ (lock = -1 /\ av => st # "pend") /\ (lock = -1 /\ ~av => st # "sub")
=============================================================================
