---------------------------- MODULE MC_Waiting ----------------------------
(* Mutex, flag and condition; the setter notifies before it releases the mutex.  With NotifyInside = FALSE the setter   *)
(* touches the condition after a waiter may have left (kept as a variant to show that the model can see it).            *)
EXTENDS Waiting
CONSTANTS Ws, NotifyInside
VARIABLES lock, ready, val, spc, wpc, asleep
mcvars == <<vars, lock, ready, val, spc, wpc, asleep>>
W == INSTANCE Waiting WITH Enforced <- {"M05"}, Diag <- FALSE
Init == Init0(1) /\ lock = 0 /\ ready = FALSE /\ val = 0 /\ spc = "start" /\ wpc = [w \in Ws |-> "start"] /\ asleep = {}
Touch(next) == IF f[1].gone THEN Late(1) ELSE next
SStart == spc = "start" /\ SetCall(1, 7) /\ spc' = "value" /\ UNCHANGED <<lock, ready, val, wpc, asleep>>
SValue == spc = "value" /\ Touch(UNCHANGED vars) /\ val' = 7 /\ spc' = "lock" /\ UNCHANGED <<lock, ready, wpc, asleep>>
SLock == spc = "lock" /\ lock = 0 /\ Touch(UNCHANGED vars) /\ lock' = -1 /\ spc' = "flag" /\ UNCHANGED <<ready, val, wpc, asleep>>
SFlag == spc = "flag" /\ Touch(UNCHANGED vars) /\ ready' = TRUE /\ spc' = (IF NotifyInside THEN "notify" ELSE "unlock") /\ UNCHANGED <<lock, val, wpc, asleep>>
SNotify == spc = "notify" /\ Touch(UNCHANGED vars) /\ asleep' = {} /\ spc' = (IF NotifyInside THEN "unlock" ELSE "ret") /\ UNCHANGED <<lock, ready, val, wpc>>
SUnlock == spc = "unlock" /\ Touch(UNCHANGED vars) /\ lock' = 0 /\ spc' = (IF NotifyInside THEN "ret" ELSE "notify") /\ UNCHANGED <<ready, val, wpc, asleep>>
SRet == spc = "ret" /\ SetRet(1) /\ spc' = "end" /\ UNCHANGED <<lock, ready, val, wpc, asleep>>
WStart(w) == wpc[w] = "start" /\ WaitCall(1, w) /\ wpc' = [wpc EXCEPT ![w] = "lock"] /\ UNCHANGED <<lock, ready, val, spc, asleep>>
WLock(w) == wpc[w] = "lock" /\ lock = 0 /\ w \notin asleep /\ lock' = w /\ wpc' = [wpc EXCEPT ![w] = "check"] /\ UNCHANGED <<vars, ready, val, spc, asleep>>
WCheck(w) == /\ wpc[w] = "check" /\ lock' = 0
             /\ IF ready THEN wpc' = [wpc EXCEPT ![w] = "ret"] /\ UNCHANGED asleep
                ELSE wpc' = [wpc EXCEPT ![w] = "lock"] /\ asleep' = asleep \cup {w}
             /\ UNCHANGED <<vars, ready, val, spc>>
WSpurious(w) == w \in asleep /\ asleep' = asleep \ {w} /\ UNCHANGED <<vars, lock, ready, val, spc, wpc>>
WRet(w) == wpc[w] = "ret" /\ WaitRet(1, w, val, val, TRUE) /\ wpc' = [wpc EXCEPT ![w] = "end"] /\ UNCHANGED <<lock, ready, val, spc, asleep>>
Leave == (\A w \in Ws : wpc[w] = "end") /\ ~f[1].gone /\ Gone(1) /\ UNCHANGED <<lock, ready, val, spc, wpc, asleep>>
Next == SStart \/ SValue \/ SLock \/ SFlag \/ SNotify \/ SUnlock \/ SRet \/ Leave \/ \E w \in Ws : WStart(w) \/ WLock(w) \/ WCheck(w) \/ WSpurious(w) \/ WRet(w)
Spec == Init /\ [][Next]_mcvars /\ SF_mcvars(SLock) /\ WF_mcvars(SStart \/ SValue \/ SFlag \/ SNotify \/ SUnlock \/ SRet) /\ \A w \in Ws : WF_mcvars(WStart(w) \/ WCheck(w) \/ WRet(w)) /\ SF_mcvars(WLock(w))
SNext == \/ W!SetCall(1, 7) \/ W!SetRet(1) \/ W!Gone(1) \/ \E w \in Ws : W!WaitCall(1, w) \/ \E v \in {0, 7} : W!WaitRet(1, w, v, v, TRUE)
Refines == [][SNext]_vars
NeverLate == f[1].gone => spc \in {"ret", "end"}
EverybodyReturns == <>(\A w \in Ws : wpc[w] = "end")
=============================================================================
