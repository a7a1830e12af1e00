----------------------------- MODULE GatewayLink -----------------------------
(***************************************************************************)
(* Gateways exchanging requests, acknowledgements and notifications over   *)
(* connections which may break and are established again (G02).            *)
(* n: gateway, c: call, id: number in the contents, q: sequence number.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  pair,   \* both sides are gateways
  nd,     \* [n -> [h, to, up, down, off, busy, cur]]
  rq,     \* requests of calls [c -> ...]
  nf,     \* notifications of calls [c -> ...]
  dq,     \* [n -> received messages which are not handled yet, in order]
  got     \* contents received so far <<n, id>>
vars == <<pair, nd, rq, nf, dq, got>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
G == {"G02"}
Slack == 60
Init0 == pair = FALSE /\ nd = << >> /\ rq = << >> /\ nf = << >> /\ dq = << >> /\ got = {}
New(n, h, to) ==
  /\ nd' = (n :> [h |-> h, to |-> to, up |-> FALSE, down |-> FALSE, off |-> FALSE, busy |-> 0, cur |-> {}]) @@ nd
  /\ dq' = (n :> << >>) @@ dq /\ UNCHANGED <<pair, rq, nf, got>>
\* ---- the user
ReqCall(n, c, id, t) ==
  /\ rq' = (c :> [n |-> n, id |-> id, q |-> 0, tx |-> 0, txok |-> FALSE, txt |-> 0, done |-> FALSE, fin |-> FALSE, start |-> t,
                  wasdown |-> ~nd[n].up \/ nd[n].down, seen |-> nd[n].cur, rx |-> FALSE]) @@ rq
  /\ UNCHANGED <<pair, nd, nf, dq, got>>
ReqRet(n, c, res, t) ==
  /\ LET r == rq[c] IN
     /\ R(G, res \in {"ok", "timeout", "notconn", "sendfail"})
     /\ R(G, res = "ok" => r.q \in r.seen)                                                     \* its own acknowledgement arrived
     /\ R(G, res = "ok" /\ pair => \E x \in got : x[2] = r.id /\ x[1] # n)            \* the other side has it
     /\ R(G, r.done => res = "ok")                                                    \* an acknowledgement in time is not ignored
     /\ R(G, res = "notconn" => r.wasdown)
     /\ R(G, res = "timeout" => r.txok /\ t >= r.txt + nd[n].to)
     /\ R(G, res = "timeout" => r.tx >= 2 \/ r.wasdown)                               \* it is repeated before it is given up
     /\ R(G, res = "sendfail" => r.tx > 0 /\ ~r.txok)
     /\ R(G, t <= r.start + 5 * nd[n].to + Slack)
  /\ rq' = [rq EXCEPT ![c].fin = TRUE] /\ UNCHANGED <<pair, nd, nf, dq, got>>
NtfCall(n, c, id) == nf' = (c :> [n |-> n, id |-> id, tx |-> 0, ok |-> FALSE, wasdown |-> ~nd[n].up \/ nd[n].down, fin |-> FALSE]) @@ nf /\ UNCHANGED <<pair, nd, rq, dq, got>>
NtfRet(n, c, res) ==
  /\ LET r == nf[c] IN
     /\ R(G, res \in {"ok", "notconn", "sendfail"})
     /\ R(G, res = "ok" => r.tx = 1 /\ r.ok)
     /\ R(G, res = "sendfail" => r.tx = 1 /\ ~r.ok)
     /\ R(G, res = "notconn" => r.tx = 0 /\ r.wasdown)
  /\ nf' = [nf EXCEPT ![c].fin = TRUE] /\ UNCHANGED <<pair, nd, rq, dq, got>>
Down(n) == /\ nd' = [nd EXCEPT ![n].down = TRUE]
           /\ rq' = [c \in DOMAIN rq |-> IF rq[c].n = n THEN [rq[c] EXCEPT !.wasdown = TRUE] ELSE rq[c]]
           /\ nf' = [c \in DOMAIN nf |-> IF nf[c].n = n THEN [nf[c] EXCEPT !.wasdown = TRUE] ELSE nf[c]]
           /\ UNCHANGED <<pair, dq, got>>
DownRet(n) == R(G, nd[n].busy = 0) /\ nd' = [nd EXCEPT ![n].off = TRUE] /\ UNCHANGED <<pair, rq, nf, dq, got>>
SetupRet(n, ok) == R(G, ~ok => nd[n].down \/ ~nd[n].up) /\ (IF ok THEN UNCHANGED vars ELSE Down(n))
\* ---- what goes out
Pos(n, k, q, st) == {j \in DOMAIN dq[n] : dq[n][j].k = k /\ dq[n][j].q = q /\ dq[n][j].st = st}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Tx(n, k, id, q) ==
  CASE k = "req" ->
         LET C == {c \in DOMAIN rq : rq[c].n = n /\ rq[c].id = id} IN
         /\ R(G, C # {} /\ \A c \in C : ~rq[c].fin /\ (rq[c].tx = 0 \/ rq[c].q = q))
         /\ R(G, \A c \in DOMAIN rq : rq[c].n = n /\ rq[c].q = q /\ rq[c].tx > 0 => c \in C)          \* numbers are not used twice
         /\ rq' = [c \in DOMAIN rq |-> IF c \in C THEN [rq[c] EXCEPT !.q = q, !.tx = @ + 1, !.txok = FALSE, !.done = FALSE, !.rx = FALSE] ELSE rq[c]]
         /\ UNCHANGED <<pair, nd, nf, dq, got>>
    [] k = "ntf" ->
         LET C == {c \in DOMAIN nf : nf[c].n = n /\ nf[c].id = id} IN
         /\ R(G, C # {} /\ \A c \in C : ~nf[c].fin)
         /\ nf' = [c \in DOMAIN nf |-> IF c \in C THEN [nf[c] EXCEPT !.tx = @ + 1] ELSE nf[c]]
         /\ UNCHANGED <<pair, nd, rq, dq, got>>
    [] OTHER ->
         LET P == Pos(n, "req", q, "rx") IN
         /\ R(G, P # {})                                                                              \* only what was received is acknowledged
         /\ dq' = IF P = {} THEN dq ELSE [dq EXCEPT ![n][Min(P)].st = "ack"]
         /\ UNCHANGED <<pair, nd, rq, nf, got>>
Drop(sq, j) == SubSeq(sq, 1, j - 1) \o SubSeq(sq, j + 1, Len(sq))
TxRet(n, k, id, q, ok, t) ==
  CASE k = "req" -> /\ rq' = [c \in DOMAIN rq |-> IF rq[c].n = n /\ rq[c].id = id THEN [rq[c] EXCEPT !.txok = ok, !.txt = t, !.done = @ /\ ok] ELSE rq[c]] /\ UNCHANGED <<pair, nd, nf, dq, got>>
    [] k = "ntf" -> /\ nf' = [c \in DOMAIN nf |-> IF nf[c].n = n /\ nf[c].id = id THEN [nf[c] EXCEPT !.ok = ok] ELSE nf[c]] /\ UNCHANGED <<pair, nd, rq, dq, got>>
    [] OTHER -> LET P == Pos(n, "req", q, "ack") IN
                /\ dq' = IF P = {} THEN dq ELSE IF ok THEN [dq EXCEPT ![n][Min(P)].st = "ready"] ELSE [dq EXCEPT ![n] = Drop(@, Min(P))]
                /\ UNCHANGED <<pair, nd, rq, nf, got>>
\* ---- what comes in
\* what had been received before is processed now
Processed(n, t) == [c \in DOMAIN rq |-> IF rq[c].n = n /\ rq[c].rx /\ ~rq[c].fin
                                         THEN [rq[c] EXCEPT !.done = ~rq[c].txok \/ t < rq[c].txt + nd[n].to, !.rx = FALSE] ELSE rq[c]]
RxCall(n, t) ==
  /\ R(G, ~nd[n].off)
  /\ rq' = Processed(n, t)
  /\ nd' = [nd EXCEPT ![n].up = TRUE, ![n].cur = {}] /\ UNCHANGED <<pair, nf, dq, got>>
Rx(n, k, id, q, same) ==
  /\ R(G, pair => same)
  /\ IF k = "ack" THEN /\ rq' = [c \in DOMAIN rq |-> IF rq[c].n = n /\ ~rq[c].fin THEN [rq[c] EXCEPT !.seen = @ \cup {q}, !.rx = @ \/ (rq[c].q = q /\ rq[c].tx > 0)] ELSE rq[c]]
                       /\ nd' = [nd EXCEPT ![n].cur = {q}] /\ UNCHANGED <<pair, nf, dq, got>>
     ELSE /\ got' = got \cup {<<n, id>>}
          /\ dq' = IF nd[n].h THEN [dq EXCEPT ![n] = Append(@, [k |-> k, id |-> id, q |-> q, st |-> IF k = "req" THEN "rx" ELSE "ready"])] ELSE dq
          /\ UNCHANGED <<pair, nd, rq, nf>>
Null(n, t) ==
  /\ nd' = [nd EXCEPT ![n].up = FALSE]
  /\ rq' = [c \in DOMAIN rq |-> IF rq[c].n = n THEN [rq[c] EXCEPT !.wasdown = TRUE] ELSE rq[c]]
  /\ nf' = [c \in DOMAIN nf |-> IF nf[c].n = n THEN [nf[c] EXCEPT !.wasdown = TRUE] ELSE nf[c]]
  /\ UNCHANGED <<pair, dq, got>>
Handle(n, id, same) ==
  /\ R(G, ~nd[n].off /\ nd[n].h /\ nd[n].busy = 0)                                    \* one at a time, never after the end
  /\ R(G, pair => same)
  /\ R(G, dq[n] # << >> /\ dq[n][1].id = id /\ dq[n][1].st = "ready")                 \* in the order of arrival, every one once
  /\ dq' = [dq EXCEPT ![n] = IF @ = << >> THEN @ ELSE Tail(@)]
  /\ nd' = [nd EXCEPT ![n].busy = id] /\ UNCHANGED <<pair, rq, nf, got>>
HandleEnd(n, id) == nd' = [nd EXCEPT ![n].busy = 0] /\ UNCHANGED <<pair, rq, nf, dq, got>>
\* after a while without disturbance the connection works
Probe(n, up, ok) == R(G, up /\ ok) /\ UNCHANGED vars
AtRest == R(G, \A n \in DOMAIN nd : ~nd[n].down => dq[n] = << >> /\ nd[n].busy = 0) /\ UNCHANGED vars
=============================================================================
