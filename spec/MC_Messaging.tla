---------------------------- MODULE MC_Messaging ----------------------------
(* One client connection with a send queue, its user, the engine thread and a server behind a byte stream refine Messaging. *)
EXTENDS Messaging
CONSTANTS Msgs, Ntfs, Cap, MaxStop, MaxDrop,
          Wrong     \* "" or the name of a wrong design
VARIABLES ph,      \* phase of the connection object: "rest" "up" "ready" "down"
          why,     \* reason of the stop
          q, wait, \* queued messages, request waiting for its reply
          cs, sc,  \* what is under way to the server / to the client
          u, e, s, \* where user, engine and server are
          stp, drp, run
mcvars == <<vars, ph, why, q, wait, cs, sc, u, e, s, stp, drp, run>>
M == INSTANCE Messaging WITH Enforced <- {"M01", "M02", "M03"}, Diag <- FALSE
C == 1
Init == /\ Init0 /\ ph = "rest" /\ why = 0 /\ q = << >> /\ wait = 0 /\ cs = << >> /\ sc = << >> /\ u = <<"cfg">> /\ e = <<"idle">> /\ s = <<"off">>
        /\ stp = 0 /\ drp = 0 /\ run = 0
Same == UNCHANGED vars
Kind(m) == IF m % 2 = 1 THEN 1 ELSE 0
\* ---- the user starts, sends, stops
User ==
  \/ u = <<"cfg">> /\ Cfg(C, Cap, TRUE, TRUE, FALSE) /\ u' = <<"start">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, e, s, stp, drp, run>>
  \/ u = <<"start">> /\ s # <<"off">> /\ Start(C, FALSE) /\ u' = <<"s1">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, e, s, stp, drp, run>>
  \/ u = <<"s1">> /\ StateCb(C, Starting, 0, FALSE) /\ u' = <<"s2">> /\ ph' = "up" /\ UNCHANGED <<why, q, wait, cs, sc, e, s, stp, drp, run>>
  \/ u = <<"s2">> /\ StateCbEnd(C, Starting) /\ u' = <<"s3">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, e, s, stp, drp, run>>
  \/ u = <<"s3">> /\ Connect(C, 1, "ok", 0) /\ u' = <<"s4">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, e, s, stp, drp, run>>
  \/ u = <<"s4">> /\ StateCb(C, Ready, 0, FALSE) /\ u' = <<"s5">> /\ ph' = "ready" /\ UNCHANGED <<why, q, wait, cs, sc, e, s, stp, drp, run>>
  \/ u = <<"s5">> /\ StateCbEnd(C, Ready) /\ u' = <<"s6">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, e, s, stp, drp, run>>
  \/ u = <<"s6">> /\ StartRet(C) /\ u' = <<"send">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, e, s, stp, drp, run>>
  \/ u = <<"send">> /\ run < Msgs /\ run' = run + 1 /\ SendCall(C, run + 1, Kind(run + 1), 1, FALSE) /\ u' = <<"put", run + 1>>
     /\ UNCHANGED <<ph, why, q, wait, cs, sc, e, s, stp, drp>>
  \/ /\ u[1] = "put" /\ Same /\ UNCHANGED <<ph, why, sc, e, s, stp, drp, run>>
     /\ LET m == u[2]
            direct == (wait = 0 /\ q = << >>) \/ (Wrong = "overtake" /\ Kind(m) = 0) IN
        IF ph # "ready" THEN u' = <<"ret", m, "inval">> /\ UNCHANGED <<q, wait, cs>>
        ELSE IF direct THEN u' = <<"ret", m, "ok">> /\ cs' = Append(cs, m) /\ wait' = (IF Kind(m) = 1 THEN m ELSE wait) /\ UNCHANGED q
        ELSE IF Len(q) >= Cap THEN u' = <<"ret", m, "full">> /\ UNCHANGED <<q, wait, cs>>
        ELSE u' = <<"ret", m, "ok">> /\ q' = Append(q, m) /\ UNCHANGED <<wait, cs>>
  \/ u[1] = "ret" /\ SendRet(C, u[2], u[3], FALSE, 1) /\ u' = <<"send">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, e, s, stp, drp, run>>
Stopper ==
  \/ stp = 0 /\ MaxStop > 0 /\ ph # "rest" /\ Stop(C) /\ stp' = 1 /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, e, s, drp, run>>
  \/ stp = 1 /\ u[1] \notin {"s1", "s2", "s3", "s4", "s5", "s6"} /\ ph \in {"up", "ready"} /\ Same /\ ph' = "down" /\ why' = 2 /\ stp' = 2 /\ UNCHANGED <<q, wait, cs, sc, u, e, s, drp, run>>
  \/ stp = 1 /\ ph = "down" /\ Same /\ stp' = 2 /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, e, s, drp, run>>
  \/ stp = 2 /\ StopRet(C, 1) /\ stp' = 3 /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, e, s, drp, run>>
\* ---- the engine thread
Next1(m, f) == IF Kind(m) = 1 THEN m ELSE f
Engine ==
  \/ /\ e = <<"idle">> /\ ph = "ready" /\ sc # << >> /\ u[1] \notin {"s5", "s6"} /\ UNCHANGED <<why, q, wait, cs, u, s, stp, drp, run>>
     /\ LET h == Head(sc) IN
        CASE h[1] = "eof" -> Same /\ ph' = "down" /\ why' = 4 /\ UNCHANGED <<sc, e>>
          [] h[1] = "rep" -> Rep(C, IF Wrong = "last" /\ q # << >> THEN q[Len(q)] ELSE wait, TRUE, h[2], TRUE, "") /\ sc' = Tail(sc) /\ e' = <<"repe", wait>> /\ UNCHANGED ph
          [] OTHER -> Notified(C, h[2], TRUE) /\ sc' = Tail(sc) /\ e' = <<"note">> /\ UNCHANGED ph
  \/ /\ e = <<"idle">> /\ ph = "ready" /\ sc # << >> /\ Head(sc)[1] = "eof" /\ u[1] \notin {"s5", "s6"} /\ Same /\ ph' = "down" /\ why' = 4
     /\ UNCHANGED <<q, wait, cs, sc, u, e, s, stp, drp, run>>
  \/ e = <<"note">> /\ NotifiedEnd(C) /\ e' = <<"idle">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, s, stp, drp, run>>
  \/ e[1] = "repe" /\ RepEnd(C, e[2]) /\ e' = <<"next">> /\ wait' = 0 /\ UNCHANGED <<ph, why, q, cs, sc, u, s, stp, drp, run>>
  \/ /\ e = <<"next">> /\ Same /\ UNCHANGED <<ph, why, sc, u, s, stp, drp, run>>
     /\ IF q # << >> /\ wait = 0 /\ ph = "ready"
        THEN cs' = Append(cs, Head(q)) /\ wait' = Next1(Head(q), 0) /\ q' = Tail(q) /\ UNCHANGED e
        ELSE e' = <<"idle">> /\ UNCHANGED <<q, wait, cs>>
  \* the end: tell, cancel, tell
  \/ e = <<"idle">> /\ ph = "down" /\ u[1] \notin {"s5", "s6"} /\ StateCb(C, Stopping, why, FALSE) /\ e' = <<"st1">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, s, stp, drp, run>>
  \/ e = <<"st1">> /\ StateCbEnd(C, Stopping) /\ e' = <<"st2">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, s, stp, drp, run>>
  \/ e = <<"st2">> /\ u[1] \notin {"put", "ret"} /\ wait # 0 /\ Rep(C, wait, FALSE, 0, TRUE, "") /\ e' = <<"cane", wait>> /\ wait' = 0
     /\ UNCHANGED <<ph, why, q, cs, sc, u, s, stp, drp, run>>
  \/ /\ e = <<"st2">> /\ u[1] \notin {"put", "ret"} /\ wait = 0 /\ q # << >> /\ q' = Tail(q) /\ UNCHANGED <<ph, why, wait, cs, sc, u, s, stp, drp, run>>
     /\ IF Kind(Head(q)) = 1 /\ Wrong # "lose" THEN Rep(C, Head(q), FALSE, 0, TRUE, "") /\ e' = <<"cane", Head(q)>> ELSE Same /\ UNCHANGED e
  \/ e[1] = "cane" /\ RepEnd(C, e[2]) /\ e' = <<"st2">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, s, stp, drp, run>>
  \/ e = <<"st2">> /\ u[1] \notin {"put", "ret"} /\ wait = 0 /\ q = << >> /\ Shut(1, FALSE) /\ cs' = Append(cs, 0) /\ e' = <<"st3">> /\ UNCHANGED <<ph, why, q, wait, sc, u, s, stp, drp, run>>
  \/ e = <<"st3">> /\ StateCb(C, Stopped, why, FALSE) /\ e' = <<"st4">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, s, stp, drp, run>>
  \/ e = <<"st4">> /\ StateCbEnd(C, Stopped) /\ e' = <<"end">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, s, stp, drp, run>>
\* ---- the server
Server ==
  \/ s = <<"off">> /\ Listen /\ s' = <<"lis">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, e, stp, drp, run>>
  \/ s = <<"lis">> /\ 1 \in DOMAIN cn /\ Accept(1, TRUE) /\ s' = <<"con">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, e, stp, drp, run>>
  \/ /\ s = <<"con">> /\ cs # << >> /\ cs' = Tail(cs) /\ UNCHANGED <<ph, why, q, wait, sc, u, e, stp, drp, run>>
     /\ IF Head(cs) = 0 THEN Disconnect(1) /\ s' = <<"gone">>
        ELSE Recv(1, Head(cs), Kind(Head(cs)) = 1, TRUE) /\ s' = (IF Kind(Head(cs)) = 1 THEN <<"rep", Head(cs)>> ELSE s)
  \/ s[1] = "rep" /\ Reply(1, s[2]) /\ sc' = Append(sc, <<"rep", s[2]>>) /\ s' = <<"repr", s[2]>> /\ UNCHANGED <<ph, why, q, wait, cs, u, e, stp, drp, run>>
  \/ s[1] = "repr" /\ ReplyRet(1, s[2], TRUE) /\ s' = <<"con">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, e, stp, drp, run>>
  \/ s = <<"con">> /\ Cardinality(DOMAIN nt) < Ntfs /\ Notify(1, Cardinality(DOMAIN nt) + 1, FALSE) /\ s' = <<"ntf">>
     /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, e, stp, drp, run>>
  \/ s = <<"ntf">> /\ Same /\ sc' = Append(sc, <<"ntf", Cardinality(DOMAIN nt)>>) /\ s' = <<"ntfr">> /\ UNCHANGED <<ph, why, q, wait, cs, u, e, stp, drp, run>>
  \/ s = <<"ntfr">> /\ NotifyRet(1, Cardinality(DOMAIN nt), "ok") /\ s' = <<"con">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, e, stp, drp, run>>
  \/ s = <<"con">> /\ drp < MaxDrop /\ ServerDrops(1) /\ drp' = drp + 1 /\ s' = <<"drop">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, e, stp, run>>
  \/ s = <<"drop">> /\ Shut(1, TRUE) /\ sc' = Append(sc, <<"eof">>) /\ s' = <<"drop2">> /\ UNCHANGED <<ph, why, q, wait, cs, u, e, stp, drp, run>>
  \/ s = <<"drop2">> /\ Disconnect(1) /\ s' = <<"gone">> /\ UNCHANGED <<ph, why, q, wait, cs, sc, u, e, stp, drp, run>>
Next == User \/ Stopper \/ Engine \/ Server
Spec == Init /\ [][Next]_mcvars
B == BOOLEAN
N == 1..Ntfs
Ms == 1..Msgs
SNext ==
  \/ M!Cfg(C, Cap, TRUE, TRUE, FALSE) \/ M!Start(C, FALSE) \/ M!StartRet(C) \/ M!Stop(C) \/ M!StopRet(C, 1)
  \/ (\E st \in 0..3, w \in 0..5 : M!StateCb(C, st, w, FALSE)) \/ (\E st \in 0..3 : M!StateCbEnd(C, st))
  \/ M!Connect(C, 1, "ok", 0) \/ (\E b \in B : M!Shut(1, b)) \/ M!Listen \/ M!Accept(1, TRUE) \/ M!Disconnect(1) \/ M!ServerDrops(1)
  \/ (\E m \in Ms : M!SendCall(C, m, Kind(m), 1, FALSE) \/ (\E r \in {"ok", "inval", "full"} : M!SendRet(C, m, r, FALSE, 1))
        \/ M!Recv(1, m, Kind(m) = 1, TRUE) \/ M!Reply(1, m) \/ M!ReplyRet(1, m, TRUE) \/ M!RepEnd(C, m))
  \/ (\E m \in Ms, id \in 0..Msgs, ok \in B : M!Rep(C, m, ok, id, TRUE, ""))
  \/ (\E n \in N : M!Notify(1, n, FALSE) \/ M!NotifyRet(1, n, "ok") \/ M!Notified(C, n, TRUE)) \/ M!NotifiedEnd(C)
Refines == [][SNext]_vars
\* the state formulation: what was accepted was delivered in order; at the end every accepted request is complete
Quiet == ~ENABLED Next
AtEnd == Quiet /\ C \in DOMAIN cl => ENABLED M!Rest(C, IF ph = "ready" THEN Ready ELSE Stopped, IF ph = "ready" THEN 0 ELSE why)
Once == \A m \in DOMAIN ms : ms[m].k = 1 /\ ms[m].acc = "ok" /\ C \in DOMAIN cl /\ Stopped \in cl[C].told => ms[m].done
Ordered == \A a, b \in DOMAIN ms : a < b /\ ms[a].got /\ ms[b].got => ms[a].gotat < ms[b].gotat
=============================================================================
