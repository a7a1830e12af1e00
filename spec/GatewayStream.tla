---------------------------- MODULE GatewayStream ----------------------------
(***************************************************************************)
(* Messages of the gateway's transport on a byte stream which may be cut   *)
(* anywhere, may end anywhere and may contain malformed frames (G01).      *)
(* A frame has a number m and a kind: "msg" written by the framer, "bad"   *)
(* malformed, "any" of a well-formed length with arbitrary contents.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  fr,     \* frames in the order of writing
  pos,    \* how many of them the receiver is through with
  ended,  \* the writer's end: "no" "yes"
  rf,     \* a read failed
  over    \* the receiver gave up
vars == <<fr, pos, ended, rf, over>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Init0 == fr = << >> /\ pos = 0 /\ ended = FALSE /\ rf = FALSE /\ over = FALSE
Broken == \E j \in DOMAIN fr : fr[j].st = "cut"
Send(m, fits) ==
  /\ fr' = Append(fr, [m |-> m, k |-> "msg", st |-> "sending", fits |-> fits, fault |-> FALSE])
  /\ UNCHANGED <<pos, ended, rf, over>>
\* writing failed; cut: after a part of the frame had been written
Fault(m, cut) ==
  /\ fr # << >> /\ fr[Len(fr)].m = m
  /\ fr' = [fr EXCEPT ![Len(fr)].fault = TRUE, ![Len(fr)].st = IF cut THEN "cut" ELSE @]
  /\ UNCHANGED <<pos, ended, rf, over>>
SendRet(m, ok) ==
  /\ fr # << >> /\ fr[Len(fr)].m = m
  /\ LET f == fr[Len(fr)] IN
     /\ R({"G01"}, ok => f.fits /\ ~f.fault)
     /\ R({"G01"}, ~ok => ~f.fits \/ f.fault \/ over \/ Broken)
     /\ R({"G01"}, ~ok => pos < Len(fr))                            \* what was refused was not delivered
     /\ fr' = [fr EXCEPT ![Len(fr)].st = IF ok /\ @ # "cut" THEN "ok" ELSE IF @ = "cut" THEN "cut" ELSE "no"]
  /\ UNCHANGED <<pos, ended, rf, over>>
Bad(m, k) == fr' = Append(fr, [m |-> m, k |-> k, st |-> "ok", fits |-> TRUE, fault |-> FALSE]) /\ UNCHANGED <<pos, ended, rf, over>>
Close == ended' = TRUE /\ UNCHANGED <<fr, pos, rf, over>>
RecvFault == rf' = TRUE /\ UNCHANGED <<fr, pos, ended, over>>
\* the frame the receiver is at (0: none)
Rest0 == {j \in DOMAIN fr : j > pos /\ fr[j].st # "no"}
Next0 == IF Rest0 = {} THEN 0 ELSE CHOOSE j \in Rest0 : \A k \in Rest0 : j <= k
Recv(m, intact, same, empty) ==
  /\ R({"G01"}, ~over /\ Next0 # 0)
  /\ R({"G01"}, Next0 # 0 => LET f == fr[Next0] IN f.m = m /\ f.st # "cut" /\ (CASE f.k = "msg" -> intact /\ f.fits [] f.k = "any" -> same \/ empty [] OTHER -> FALSE))
  /\ pos' = IF Next0 = 0 THEN pos ELSE Next0
  /\ UNCHANGED <<fr, ended, rf, over>>
\* the receiver reports an error (or the end)
Null ==
  /\ R({"G01"}, \/ rf
                \/ IF Next0 = 0 THEN ended \/ Broken ELSE fr[Next0].k # "msg" \/ fr[Next0].st = "cut"
                \/ (\E j \in 1..(Next0 - 1) : fr[j].st = "cut") )
  /\ over' = TRUE /\ UNCHANGED <<fr, pos, ended, rf>>
AtRest == R({"G01"}, over) /\ UNCHANGED vars
=============================================================================
