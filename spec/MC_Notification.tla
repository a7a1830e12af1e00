--------------------------- MODULE MC_Notification ---------------------------
(* Registration counts in each process, messages between the processes, interested processes and a flag at the provider   *)
(* refine Notification.  Process 0 is the provider's own.                                                                  *)
EXTENDS Notification
CONSTANTS Own,      \* sequence: process of each receiver
          MaxUp, MaxQuiet, MaxProv,
          Wrong     \* "" or the name of a wrong design
VARIABLES pc,       \* [receiver -> where its thread is]
          on,       \* [receiver -> it is in the list of its process]
          cnt, nid, \* [process -> registrations, incarnation they are with]
          ch, bk,   \* [process -> messages to the provider, from the provider]
          nodes, flag, rep, \* interested processes, flag of the event, reports on their way (<<>> or value of a wrong design)
          up, togo, \* updater, processes it still has to tell
          cl,       \* [process -> receivers still to be called, or <<"idle">>]
          nu, nq, mu
mcvars == <<vars, pc, on, cnt, nid, ch, bk, nodes, flag, rep, up, togo, cl, nu, nq, mu>>
M == INSTANCE Notification WITH Enforced <- {"L01"}, Diag <- FALSE
H == 1..Len(Own)
Ps == {Own[h] : h \in H} \cup {0}
EV == 0
Same == UNCHANGED vars
Init == /\ hs = <<>> /\ prov = 1 /\ moving = {}
        /\ pc = [h \in H |-> "out"] /\ on = [h \in H |-> FALSE] /\ cnt = [p \in Ps |-> 0] /\ nid = [p \in Ps |-> 1]
        /\ ch = [p \in Ps |-> << >>] /\ bk = [p \in Ps |-> << >>] /\ nodes = {} /\ flag = FALSE /\ rep = [p \in Ps |-> << >>] /\ up = "idle" /\ togo = {}
        /\ cl = [p \in Ps |-> {}] /\ nu = 0 /\ nq = 0 /\ mu = [p \in Ps |-> << >>]
Loc == {h \in H : Own[h] = 0 /\ on[h]}
Some == Loc # {} \/ nodes # {}
Stale(p) == \E h \in H : Own[h] = p /\ (pc[h] = "x1" \/ (pc[h] = "in" /\ hs[h].to # prov))
\* a message is put under the lock of the registrations (mu: what a wrong design sends after it released the lock)
Put(p, m) == IF Wrong = "overtake" THEN mu' = [mu EXCEPT ![p] = Append(@, m)] /\ UNCHANGED ch ELSE ch' = [ch EXCEPT ![p] = Append(@, m)] /\ UNCHANGED mu
Late == \E p \in Ps : \E k \in 1..Len(mu[p]) :
          /\ ch' = [ch EXCEPT ![p] = Append(@, mu[p][k])] /\ mu' = [mu EXCEPT ![p] = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
          /\ Same /\ UNCHANGED <<pc, on, cnt, nid, bk, nodes, flag, rep, up, togo, cl, nu, nq>>
\* ---- the thread of a receiver
Receiver(h) == LET p == Own[h] IN
  \/ /\ pc[h] = "out" /\ ~Stale(p) /\ RegC(h, EV, prov) /\ pc' = [pc EXCEPT ![h] = "r1"]
     /\ UNCHANGED <<on, cnt, nid, ch, bk, nodes, flag, rep, up, togo, cl, nu, nq, mu>>
  \/ /\ pc[h] = "r1" /\ Same /\ pc' = [pc EXCEPT ![h] = "r2"] /\ on' = [on EXCEPT ![h] = TRUE]
     /\ IF p # 0 THEN /\ cnt' = [cnt EXCEPT ![p] = @ + 1] /\ nid' = [nid EXCEPT ![p] = prov]
                      /\ (IF cnt[p] = 0 THEN Put(p, "R") ELSE UNCHANGED <<ch, mu>>) /\ UNCHANGED rep
        ELSE /\ rep' = [rep EXCEPT ![0] = IF Wrong = "flagrace" THEN (IF Loc = {} /\ nodes = {} THEN Append(@, TRUE) ELSE @) ELSE Append(@, TRUE)]
             /\ UNCHANGED <<cnt, nid, ch, mu>>
     /\ UNCHANGED <<bk, nodes, flag, up, togo, cl, nu, nq>>
  \/ /\ pc[h] = "r2" /\ (p = 0 => rep[0] = << >>) /\ RegR(h) /\ pc' = [pc EXCEPT ![h] = "in"]
     /\ UNCHANGED <<on, cnt, nid, ch, bk, nodes, flag, rep, up, togo, cl, nu, nq, mu>>
  \/ /\ pc[h] = "in" /\ hs[h].to # prov /\ RerC(h, prov) /\ pc' = [pc EXCEPT ![h] = "x1"]
     /\ UNCHANGED <<on, cnt, nid, ch, bk, nodes, flag, rep, up, togo, cl, nu, nq, mu>>
  \/ /\ pc[h] = "x1" /\ Same /\ pc' = [pc EXCEPT ![h] = "x2"]
     /\ IF nid[p] = prov /\ Wrong # "eachfirst" THEN cnt' = [cnt EXCEPT ![p] = @ + 1] /\ UNCHANGED <<nid, ch, mu>>
        ELSE nid' = [nid EXCEPT ![p] = prov] /\ cnt' = [cnt EXCEPT ![p] = 1] /\ Put(p, "R")
     /\ UNCHANGED <<on, bk, nodes, flag, rep, up, togo, cl, nu, nq>>
  \/ /\ pc[h] = "x2" /\ RerR(h) /\ pc' = [pc EXCEPT ![h] = "in"]
     /\ UNCHANGED <<on, cnt, nid, ch, bk, nodes, flag, rep, up, togo, cl, nu, nq, mu>>
  \/ /\ pc[h] = "in" /\ hs[h].to = prov /\ ~Stale(p) /\ UnrC(h) /\ pc' = [pc EXCEPT ![h] = "u1"]
     /\ UNCHANGED <<on, cnt, nid, ch, bk, nodes, flag, rep, up, togo, cl, nu, nq, mu>>
  \/ /\ pc[h] = "u1" /\ Same /\ pc' = [pc EXCEPT ![h] = "u2"] /\ on' = [on EXCEPT ![h] = FALSE]
     /\ IF p # 0 THEN /\ cnt' = [cnt EXCEPT ![p] = @ - 1] /\ UNCHANGED <<nid, rep>>
                      /\ (IF cnt[p] = 1 THEN Put(p, "U") ELSE UNCHANGED <<ch, mu>>)
        ELSE /\ rep' = [rep EXCEPT ![0] = IF Wrong = "flagrace" THEN (IF Loc = {h} /\ nodes = {} THEN Append(@, FALSE) ELSE @) ELSE Append(@, TRUE)]
             /\ UNCHANGED <<cnt, nid, ch, mu>>
     /\ UNCHANGED <<bk, nodes, flag, up, togo, cl, nu, nq>>
  \/ /\ pc[h] = "u2" /\ (p = 0 => rep[0] = << >>) /\ UnrR(h) /\ pc' = [pc EXCEPT ![h] = "end"]
     /\ UNCHANGED <<on, cnt, nid, ch, bk, nodes, flag, rep, up, togo, cl, nu, nq, mu>>
\* ---- what changed is reported to the event: the status at that time (a wrong design: the status when it changed)
Report == \E p \in Ps : \E k \in 1..Len(rep[p]) :
            /\ Same /\ flag' = (IF Wrong = "flagrace" THEN rep[p][k] ELSE Some)
            /\ rep' = [rep EXCEPT ![p] = SubSeq(@, 1, k - 1) \o SubSeq(@, k + 1, Len(@))]
            /\ UNCHANGED <<pc, on, cnt, nid, ch, bk, nodes, up, togo, cl, nu, nq, mu>>
\* ---- the provider receives; messages of one process are taken one after the other
Receive == \E p \in Ps \ {0} :
            /\ ch[p] # << >> /\ rep[p] = << >> /\ Same
            /\ ch' = [ch EXCEPT ![p] = Tail(@)]
            /\ LET n == IF Head(ch[p]) = "R" THEN nodes \cup {p} ELSE nodes \ {p} IN
               /\ nodes' = n
               /\ rep' = [rep EXCEPT ![p] = IF (n = {}) # (nodes = {}) /\ (Wrong = "flagrace" => Loc = {}) THEN Append(@, n # {}) ELSE @]
            /\ UNCHANGED <<pc, on, cnt, nid, bk, flag, up, togo, cl, nu, nq, mu>>
\* ---- an update
Updater ==
  \/ /\ up = "idle" /\ nu < MaxUp /\ UpC(EV) /\ nu' = nu + 1 /\ up' = "c"
     /\ UNCHANGED <<pc, on, cnt, nid, ch, bk, nodes, flag, rep, togo, cl, nq, mu>>
  \/ /\ up = "c" /\ Same /\ up' = (IF flag THEN "s" ELSE "r") /\ togo' = (IF flag THEN nodes ELSE {})
     /\ UNCHANGED <<pc, on, cnt, nid, ch, bk, nodes, flag, rep, cl, nu, nq, mu>>
  \/ /\ up = "s" /\ togo # {} /\ Same
     /\ \E p \in togo : (bk' = [bk EXCEPT ![p] = Append(@, "N")] /\ togo' = (IF Wrong = "copyone" THEN {} ELSE togo \ {p}))
     /\ UNCHANGED <<pc, on, cnt, nid, ch, nodes, flag, rep, up, cl, nu, nq, mu>>
  \/ /\ up = "s" /\ togo = {} /\ Same /\ up' = "r" /\ bk' = (IF Loc # {} THEN [bk EXCEPT ![0] = Append(@, "N")] ELSE bk)
     /\ UNCHANGED <<pc, on, cnt, nid, ch, nodes, flag, rep, togo, cl, nu, nq, mu>>
  \/ /\ up = "r" /\ UpR(EV) /\ up' = "idle" /\ UNCHANGED <<pc, on, cnt, nid, ch, bk, nodes, flag, rep, togo, cl, nu, nq, mu>>
\* ---- a process hears of an update and calls its receivers, unless their scope ended
Hear(p) ==
  \/ /\ cl[p] = {} /\ bk[p] # << >> /\ Same /\ bk' = [bk EXCEPT ![p] = Tail(@)] /\ cl' = [cl EXCEPT ![p] = {h \in H : Own[h] = p /\ on[h]}]
     /\ UNCHANGED <<pc, on, cnt, nid, ch, nodes, flag, rep, up, togo, nu, nq, mu>>
  \/ \E h \in cl[p] : /\ (IF pc[h] \in {"u1", "u2", "end"} THEN Same ELSE Call(h))
                      /\ cl' = [cl EXCEPT ![p] = @ \ {h}]
                      /\ UNCHANGED <<pc, on, cnt, nid, ch, bk, nodes, flag, rep, up, togo, nu, nq, mu>>
AtRest == /\ \A h \in H : pc[h] \in {"out", "in", "end"} /\ (pc[h] = "in" => hs[h].to = prov)
          /\ \A p \in Ps : ch[p] = << >> /\ bk[p] = << >> /\ rep[p] = << >> /\ cl[p] = {} /\ mu[p] = << >>
          /\ up = "idle"
Resting == /\ AtRest /\ nq < MaxQuiet /\ Quiet /\ nq' = nq + 1
           /\ UNCHANGED <<pc, on, cnt, nid, ch, bk, nodes, flag, rep, up, togo, cl, nu, mu>>
\* ---- the provider's process ends and another one offers
Restart == /\ AtRest /\ prov < MaxProv /\ \A h \in H : Own[h] = 0 => pc[h] # "in"
           /\ Prov(prov + 1) /\ nodes' = {} /\ flag' = FALSE
           /\ UNCHANGED <<pc, on, cnt, nid, ch, bk, rep, up, togo, cl, nu, nq, mu>>
Next == (\E h \in H : Receiver(h)) \/ Report \/ Receive \/ Updater \/ (\E p \in Ps : Hear(p)) \/ Late \/ Resting \/ Restart
Spec == Init /\ [][Next]_mcvars
SNext == \/ \E h \in H : M!RegC(h, EV, prov) \/ M!RegR(h) \/ M!RerC(h, prov) \/ M!UnrC(h) \/ M!UnrR(h) \/ M!Call(h)
         \/ M!UpC(EV) \/ M!UpR(EV) \/ M!Quiet \/ M!Prov(prov + 1)
O11 == <<1, 1>>
O112 == <<1, 1, 2>>
O001 == <<0, 0, 1>>
O0112 == <<0, 1, 1, 2>>
O0011 == <<0, 0, 1, 1>>
Refines == [][SNext]_vars
\* the state formulation: at rest the provider knows exactly the processes with receivers, and the flag tells whether there are any
Known == AtRest => /\ nodes = {Own[h] : h \in {x \in H : on[x] /\ Own[x] # 0 /\ hs[x].to = prov}}
                   /\ flag = Some
=============================================================================
