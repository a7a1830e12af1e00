--------------------------- MODULE MC_GatewayLink ---------------------------
(***************************************************************************)
(* Gateway 1 sends requests (repeating them), gateway 2 acknowledges and   *)
(* handles them; the connection breaks and is established again.  Checked  *)
(* against the rules of GatewayLink.                                       *)
(***************************************************************************)
EXTENDS GatewayLink
CONSTANTS Reqs, Tries, MaxBreak, MaxFault, MaxT, To, Slow,
          Wrong     \* "" or the name of a wrong design
VARIABLES c12, c21, \* what is under way
          up,       \* the connection is there
          t,        \* time
          a,        \* requester
          ra,       \* receiving of gateway 1
          ack,      \* acknowledged (set by the receiving thread)
          rb, hb,   \* receiving and handling of gateway 2
          qb,       \* its dispatch queue
          n, sq, try, brk, flt, waited
mvars == <<vars, c12, c21, up, t, a, ra, ack, rb, hb, qb, n, sq, try, brk, flt, waited>>
M == INSTANCE GatewayLink WITH Enforced <- {"G02"}, Diag <- FALSE
Init == /\ pair = TRUE /\ rq = << >> /\ nf = << >> /\ got = {}
        /\ nd = [i \in 1..2 |-> [h |-> TRUE, to |-> To, up |-> TRUE, down |-> FALSE, off |-> FALSE, busy |-> 0, cur |-> {}]]
        /\ dq = [i \in 1..2 |-> << >>]
        /\ c12 = << >> /\ c21 = << >> /\ up = TRUE /\ t = 0 /\ a = <<"idle">> /\ ra = <<"wait">> /\ ack = {} /\ rb = <<"wait">> /\ hb = <<"idle">> /\ qb = << >>
        /\ n = 0 /\ sq = 0 /\ try = 0 /\ brk = 0 /\ flt = 0 /\ waited = 0
Same == UNCHANGED vars
Seq0 == IF Wrong = "reuse" THEN 1 ELSE sq + 1
User ==
  \/ a = <<"idle">> /\ n < Reqs /\ n' = n + 1 /\ ReqCall(1, n + 1, n + 1, t) /\ a' = <<"reg">> /\ UNCHANGED <<c12, c21, up, t, ra, ack, rb, hb, qb, sq, try, brk, flt, waited>>
  \/ a = <<"reg">> /\ Same /\ (IF ~up THEN a' = <<"ret", "notconn">> /\ UNCHANGED <<sq, ack>> ELSE a' = <<"send">> /\ sq' = Seq0 /\ ack' = ack \ {Seq0}) /\ try' = 0 /\ waited' = 0
     /\ UNCHANGED <<c12, c21, up, t, ra, rb, hb, qb, n, brk, flt>>
  \/ /\ a = <<"send">> /\ UNCHANGED <<c12, c21, up, t, ra, ack, rb, hb, qb, n, sq, brk, flt, waited>>
     /\ IF ~up /\ try > 0 THEN a' = <<"ret", "notconn">> /\ Same /\ UNCHANGED try
        ELSE Tx(1, "req", n, sq) /\ a' = <<"put">> /\ try' = try + 1
  \/ /\ a = <<"put">> /\ Same /\ UNCHANGED <<c21, up, t, ra, ack, rb, hb, qb, n, sq, try, brk, waited>>
     /\ \/ up /\ c12' = Append(c12, <<n, sq>>) /\ a' = <<"sent", TRUE>> /\ UNCHANGED flt
        \/ up /\ flt < MaxFault /\ flt' = flt + 1 /\ a' = <<"sent", FALSE>> /\ UNCHANGED c12
        \/ ~up /\ a' = <<"sent", FALSE>> /\ UNCHANGED <<c12, flt>>
  \/ a[1] = "sent" /\ TxRet(1, "req", n, sq, a[2], t) /\ waited' = t /\ a' = (IF a[2] THEN <<"wait">> ELSE <<"more", "sendfail">>)
     /\ UNCHANGED <<c12, c21, up, t, ra, ack, rb, hb, qb, n, sq, try, brk, flt>>
  \/ /\ a = <<"wait">> /\ Same /\ UNCHANGED <<c12, c21, up, t, ra, ack, rb, hb, qb, n, sq, try, brk, flt, waited>>
     /\ \/ (sq \in ack \/ (Wrong = "anyack" /\ ack # {})) /\ a' = <<"ret", "ok">>
        \/ sq \notin ack /\ ~up /\ a' = <<"ret", "notconn">>
        \/ sq \notin ack /\ up /\ t >= waited + To /\ a' = <<"more", "timeout">>
  \/ a[1] = "more" /\ Same /\ ack' = (IF up /\ try < Tries THEN ack \ {sq} ELSE ack) /\ a' = (IF up /\ try < Tries THEN <<"send">> ELSE <<"ret", a[2]>>)
     /\ UNCHANGED <<c12, c21, up, t, ra, rb, hb, qb, n, sq, try, brk, flt, waited>>
  \/ a[1] = "ret" /\ ReqRet(1, n, a[2], t) /\ a' = <<"idle">> /\ UNCHANGED <<c12, c21, up, t, ra, ack, rb, hb, qb, n, sq, try, brk, flt, waited>>
RecvA ==
  \/ ra = <<"wait">> /\ up /\ c21 # << >> /\ Rx(1, "ack", 0, Head(c21), TRUE) /\ c21' = Tail(c21) /\ ra' = <<"ack", Head(c21)>> /\ UNCHANGED <<c12, up, t, a, ack, rb, hb, qb, n, sq, try, brk, flt, waited>>
  \/ ra[1] = "ack" /\ Same /\ ack' = (IF Wrong = "deaf" /\ a[1] = "sent" THEN ack ELSE ack \cup {ra[2]}) /\ ra' = <<"next">> /\ UNCHANGED <<c12, c21, up, t, a, rb, hb, qb, n, sq, try, brk, flt, waited>>
  \/ ra = <<"next">> /\ up /\ RxCall(1, t) /\ ra' = <<"wait">> /\ UNCHANGED <<c12, c21, up, t, a, ack, rb, hb, qb, n, sq, try, brk, flt, waited>>
RecvB ==
  \/ rb = <<"wait">> /\ up /\ c12 # << >> /\ Rx(2, "req", Head(c12)[1], Head(c12)[2], TRUE) /\ c12' = Tail(c12) /\ rb' = <<"got", Head(c12)>> /\ UNCHANGED <<c21, up, t, a, ra, ack, hb, qb, n, sq, try, brk, flt, waited>>
  \/ rb[1] = "got" /\ Tx(2, "ack", 0, rb[2][2]) /\ rb' = <<"ack", rb[2]>> /\ UNCHANGED <<c12, c21, up, t, a, ra, ack, hb, qb, n, sq, try, brk, flt, waited>>
  \/ /\ rb[1] = "ack" /\ Same /\ UNCHANGED <<c12, up, t, a, ra, ack, hb, qb, n, sq, try, brk, waited>>
     /\ \/ up /\ c21' = Append(c21, rb[2][2]) /\ rb' = <<"acked", rb[2], TRUE>> /\ UNCHANGED flt
        \/ (~up \/ flt < MaxFault) /\ flt' = (IF up THEN flt + 1 ELSE flt) /\ rb' = <<"acked", rb[2], FALSE>> /\ UNCHANGED c21
  \/ rb[1] = "acked" /\ TxRet(2, "ack", 0, rb[2][2], rb[3], t) /\ qb' = (IF rb[3] \/ Wrong = "unacked" THEN Append(qb, rb[2]) ELSE qb) /\ rb' = <<"next">>
     /\ UNCHANGED <<c12, c21, up, t, a, ra, ack, hb, n, sq, try, brk, flt, waited>>
  \/ rb = <<"next">> /\ up /\ RxCall(2, t) /\ rb' = <<"wait">> /\ UNCHANGED <<c12, c21, up, t, a, ra, ack, hb, qb, n, sq, try, brk, flt, waited>>
HandB ==
  \/ hb = <<"idle">> /\ qb # << >> /\ Handle(2, qb[1][1], TRUE) /\ qb' = Tail(qb) /\ hb' = <<"in", qb[1][1]>> /\ UNCHANGED <<c12, c21, up, t, a, ra, ack, rb, n, sq, try, brk, flt, waited>>
  \/ hb[1] = "in" /\ HandleEnd(2, hb[2]) /\ hb' = <<"idle">> /\ UNCHANGED <<c12, c21, up, t, a, ra, ack, rb, qb, n, sq, try, brk, flt, waited>>
\* both sides notice it at some time; what is under way is lost
Break == /\ up /\ brk < MaxBreak /\ rb[1] = "wait" /\ ra = <<"wait">> /\ brk' = brk + 1
         /\ nd' = [i \in 1..2 |-> [nd[i] EXCEPT !.up = FALSE]]
         /\ rq' = [c \in DOMAIN rq |-> IF rq[c].n \in 1..2 THEN [rq[c] EXCEPT !.wasdown = TRUE] ELSE rq[c]] /\ nf' = << >>
         /\ UNCHANGED <<pair, dq, got, t, a, ack, hb, qb, n, sq, try, flt, waited>>
         /\ c12' = << >> /\ c21' = << >> /\ up' = FALSE /\ ra' = <<"next">> /\ rb' = <<"next">>
Heal == ~up /\ up' = TRUE /\ Same /\ UNCHANGED <<c12, c21, t, a, ra, ack, rb, hb, qb, n, sq, try, brk, flt, waited>>
\* time passes while the other side is slow or somebody waits
Busy == c21 # << >> \/ ra[1] = "ack" \/ ra = <<"next">> \/ a[1] \in {"reg", "send", "put", "sent", "more", "ret"} \/ (a = <<"wait">> /\ (sq \in ack \/ ~up \/ t >= waited + To))
Tick == (Slow \/ (rb = <<"wait">> /\ c12 = << >>)) /\ ~Busy /\ t < MaxT /\ t' = t + 1 /\ Same /\ UNCHANGED <<c12, c21, up, a, ra, ack, rb, hb, qb, n, sq, try, brk, flt, waited>>
Next == User \/ RecvA \/ RecvB \/ HandB \/ Break \/ Heal \/ Tick
Spec == Init /\ [][Next]_mvars
B == BOOLEAN
SNext ==
  \/ M!RxCall(1, t) \/ M!RxCall(2, t) \/ (nd' = [i \in 1..2 |-> [nd[i] EXCEPT !.up = FALSE]] /\ brk' > brk)
  \/ \E i \in 1..Reqs : \/ M!ReqCall(1, i, i, t) \/ (i \in DOMAIN rq /\ \E r \in {"ok", "timeout", "notconn", "sendfail"} : M!ReqRet(1, i, r, t))
                        \/ M!Handle(2, i, TRUE) \/ M!HandleEnd(2, i)
                        \/ (\E q \in 1..Reqs : \/ M!Tx(1, "req", i, q) \/ (\E ok \in B : M!TxRet(1, "req", i, q, ok, t) \/ M!TxRet(2, "ack", 0, q, ok, t))
                                               \/ M!Tx(2, "ack", 0, q) \/ M!Rx(1, "ack", 0, q, TRUE) \/ M!Rx(2, "req", i, q, TRUE))
Refines == [][SNext]_vars
Quiet == ~ENABLED Next
AtEnd == Quiet /\ up => dq[2] = << >> /\ (t < MaxT => a = <<"idle">>)
\* the state formulation: a request which was reported done was received
Known == \A c \in DOMAIN rq : a = <<"ret", "ok">> /\ c = n => \E x \in got : x = <<2, c>>
=============================================================================
