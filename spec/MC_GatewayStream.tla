-------------------------- MODULE MC_GatewayStream --------------------------
(***************************************************************************)
(* A framer writing header and payload in pieces and a framer reading them *)
(* piece by piece, checked against the rules of GatewayStream.             *)
(***************************************************************************)
EXTENDS GatewayStream
CONSTANTS Frames, MaxLen, MaxBad, MaxFault,
          Wrong    \* "" or the name of a wrong design
VARIABLES st,      \* the stream: units <<"H", m, length>>, <<"B", m, index>>
          sh,      \* it is ended
          w,       \* writer
          rd,      \* reader: [pc, m, need, got]
          n, bad, flt
mvars == <<vars, st, sh, w, rd, n, bad, flt>>
M == INSTANCE GatewayStream WITH Enforced <- {"G01"}, Diag <- FALSE
Init == Init0 /\ st = << >> /\ sh = FALSE /\ w = <<"idle">> /\ rd = [pc |-> "head", m |-> 0, need |-> 0, got |-> << >>] /\ n = 0 /\ bad = 0 /\ flt = 0
Len0(m) == 1 + (m % MaxLen)
Units(m, l) == <<<<"H", m, l>>>> \o [j \in 1..l |-> <<"B", m, j>>]
Same == UNCHANGED vars
Writer ==
  \/ w = <<"idle">> /\ n < Frames /\ n' = n + 1 /\ Send(n + 1, TRUE) /\ w' = <<"put", n + 1, Units(n + 1, Len0(n + 1)), FALSE>> /\ UNCHANGED <<st, sh, rd, bad, flt>>
  \/ w = <<"idle">> /\ n < Frames /\ n' = n + 1 /\ Send(n + 1, FALSE) /\ w' = <<"ret", n + 1, FALSE>> /\ UNCHANGED <<st, sh, rd, bad, flt>>
  \/ /\ w = <<"idle">> /\ n < Frames /\ bad < MaxBad /\ ~sh /\ n' = n + 1 /\ bad' = bad + 1 /\ UNCHANGED <<sh, w, rd, flt>>
     /\ \E k \in {"bad", "any"} : /\ Bad(n + 1, k)
                                  /\ st' = st \o (IF k = "any" THEN Units(n + 1, 1) ELSE <<<<"H", n + 1, MaxLen + 1>>>>)
  \/ w[1] = "put" /\ w[3] = << >> /\ Same /\ w' = <<"ret", w[2], TRUE>> /\ UNCHANGED <<st, sh, rd, n, bad, flt>>
  \/ w[1] = "put" /\ w[3] # << >> /\ sh /\ Same /\ w' = <<"ret", w[2], FALSE>> /\ UNCHANGED <<st, sh, rd, n, bad, flt>>
  \/ w[1] = "put" /\ w[3] # << >> /\ ~sh /\ rd.pc # "over" /\ Same /\ st' = Append(st, Head(w[3])) /\ w' = <<"put", w[2], Tail(w[3]), TRUE>> /\ UNCHANGED <<sh, rd, n, bad, flt>>
  \/ w[1] = "put" /\ w[3] # << >> /\ rd.pc = "over" /\ Same /\ w' = <<"ret", w[2], FALSE>> /\ UNCHANGED <<st, sh, rd, n, bad, flt>>
  \/ /\ w[1] = "put" /\ w[3] # << >> /\ flt < MaxFault /\ flt' = flt + 1 /\ Fault(w[2], w[4])
     /\ w' = IF w[4] /\ Wrong # "goon" THEN <<"end", w[2]>> ELSE <<"ret", w[2], FALSE>>
     /\ UNCHANGED <<st, sh, rd, n, bad>>
  \/ w[1] = "end" /\ Same /\ sh' = TRUE /\ w' = <<"ret", w[2], FALSE>> /\ UNCHANGED <<st, rd, n, bad, flt>>
  \/ w[1] = "ret" /\ SendRet(w[2], w[3]) /\ w' = <<"idle">> /\ UNCHANGED <<st, sh, rd, n, bad, flt>>
  \/ w = <<"idle">> /\ ~ended /\ Close /\ sh' = TRUE /\ w' = <<"off">> /\ UNCHANGED <<st, rd, n, bad, flt>>
Reader ==
  \/ (rd.pc = "head" \/ (rd.pc = "body" /\ rd.need > 0)) /\ st = << >> /\ sh /\ Null /\ rd' = [rd EXCEPT !.pc = "over"] /\ UNCHANGED <<st, sh, w, n, bad, flt>>
  \/ /\ rd.pc = "head" /\ st # << >> /\ Same /\ st' = Tail(st) /\ UNCHANGED <<sh, w, n, bad, flt>>
     /\ rd' = IF st[1][1] = "H" THEN [pc |-> "body", m |-> st[1][2], need |-> IF Wrong = "short" /\ st[1][3] > 1 THEN st[1][3] - 1 ELSE st[1][3], got |-> << >>]
              ELSE [pc |-> "body", m |-> st[1][2], need |-> 1, got |-> << >>]            \* payload taken for a header
  \/ rd.pc = "body" /\ rd.need > MaxLen /\ Wrong # "unchecked" /\ Null /\ rd' = [rd EXCEPT !.pc = "over"] /\ UNCHANGED <<st, sh, w, n, bad, flt>>
  \/ /\ rd.pc = "body" /\ rd.need \in 1..(IF Wrong = "unchecked" THEN MaxLen + 1 ELSE MaxLen) /\ st # << >> /\ Same
     /\ st' = Tail(st) /\ rd' = [rd EXCEPT !.need = @ - 1, !.got = Append(@, st[1])] /\ UNCHANGED <<sh, w, n, bad, flt>>
  \/ /\ rd.pc = "body" /\ rd.need = 0
     /\ LET good == rd.got = [j \in 1..Len(rd.got) |-> <<"B", rd.m, j>>] /\ rd.m \in 1..Frames
            k == IF \E j \in DOMAIN fr : fr[j].m = rd.m THEN (CHOOSE j \in DOMAIN fr : fr[j].m = rd.m) ELSE 0
            full == k # 0 /\ good /\ Len(rd.got) = (IF fr[k].k = "any" THEN 1 ELSE Len0(rd.m)) IN
        Recv(rd.m, full, full, FALSE)
     /\ rd' = [rd EXCEPT !.pc = "head"] /\ UNCHANGED <<st, sh, w, n, bad, flt>>
Next == Writer \/ Reader
Spec == Init /\ [][Next]_mvars
B == BOOLEAN
SNext == \/ (\E m \in 1..Frames : (\E b \in B : M!Send(m, b) \/ M!Fault(m, b) \/ M!SendRet(m, b)) \/ (\E k \in {"bad", "any"} : M!Bad(m, k)) \/ (\E a, b \in B : M!Recv(m, a, b, FALSE)))
         \/ M!Close \/ M!Null
Refines == [][SNext]_vars
Quiet == ~ENABLED Next
AtEnd == Quiet => over
=============================================================================
