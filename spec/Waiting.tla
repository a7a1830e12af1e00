------------------------------ MODULE Waiting ------------------------------
(***************************************************************************)
(* A value handed from the thread that produces it to threads waiting for  *)
(* it.  The lock, the condition and the value live with the waiters and    *)
(* disappear when the last one has returned.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES f      \* [handshake -> [st: "no" | "setting" | "set", v, wait: set of waiters, gone]]
vars == <<f>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
New == [st |-> "no", v |-> 0, wait |-> {}, gone |-> FALSE]
Init0(n) == f = [k \in 1..n |-> New]
SetCall(k, v) == f[k].st = "no" /\ f' = [f EXCEPT ![k].st = "setting", ![k].v = v]
SetRet(k) == f[k].st = "setting" /\ f' = [f EXCEPT ![k].st = "set"]
WaitCall(k, w) == ~f[k].gone /\ f' = [f EXCEPT ![k].wait = @ \cup {w}]
\* a waiter returns only when the value was stored and sees that value, completely
WaitRet(k, w, a, b, hb) ==
  /\ w \in f[k].wait
  /\ R({"M05"}, f[k].st # "no")
  /\ R({"M05"}, a = f[k].v /\ b = f[k].v /\ hb)
  /\ f' = [f EXCEPT ![k].wait = @ \ {w}]
Gone(k) == f[k].wait = {} /\ f' = [f EXCEPT ![k].gone = TRUE]
\* anything of the handshake is used after the waiters have left
Late(k) == R({"M05"}, FALSE) /\ UNCHANGED f
\* the run ended although somebody still waits
Stuck == R({"M05"}, FALSE) /\ UNCHANGED f
=============================================================================
