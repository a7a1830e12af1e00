----------------------------- MODULE RegionMap -----------------------------
(***************************************************************************)
(* Memory regions of a process are registered and removed while others     *)
(* look up the region around an address (bounds checks of relocatable      *)
(* pointers) or the region of an identifier.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES reg,   \* [registration -> [id, s, t, b: bypasses bounds checks, st: "adding" | "in" | "removing", conf: conflicting ones possible during the attempt, sure: conflicting ones registered throughout, seen]]
          lk     \* [lookup -> [k: "a" address | "i" identifier, a, poss: registrations possible during the lookup, sure: those registered throughout]]
vars == <<reg, lk>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Empty == [x \in {} |-> 0]
Init == reg = Empty /\ lk = Empty
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]

Overlap(x, y) == ~x.b /\ ~y.b /\ x.s < y.t /\ y.s < x.t
Conflict(x, y) == x.id = y.id \/ Overlap(x, y)
\* may / must a lookup (kind k, key a) find x?  Whether the end address belongs to the region is left open.
May(k, a, x) == IF k = "i" THEN x.id = a ELSE ~x.b /\ x.s <= a /\ a <= x.t
Must(k, a, x) == IF k = "i" THEN x.id = a ELSE ~x.b /\ x.s <= a /\ a < x.t

InsCall(o, id, s, t, b) ==
  LET n == [id |-> id, s |-> s, t |-> t, b |-> b]
      c == {p \in DOMAIN reg : Conflict(n, reg[p])}
      full == [id |-> id, s |-> s, t |-> t, b |-> b, st |-> "adding", conf |-> c, sure |-> {p \in c : reg[p].st = "in"}, seen |-> FALSE]
  IN /\ o \notin DOMAIN reg
     /\ reg' = [p \in DOMAIN reg \cup {o} |-> IF p = o THEN full
                                             ELSE IF p \in c /\ reg[p].st = "adding" THEN [reg[p] EXCEPT !.conf = @ \cup {o}] ELSE reg[p]]
     /\ lk' = [l \in DOMAIN lk |-> IF May(lk[l].k, lk[l].a, n) THEN [lk[l] EXCEPT !.poss = @ \cup {[o |-> o, s |-> s, t |-> t]}] ELSE lk[l]]
InsRet(o, ok) ==
  /\ o \in DOMAIN reg /\ reg[o].st = "adding"
  /\ R({"S01"}, IF ok THEN reg[o].sure = {} ELSE reg[o].conf # {} /\ ~reg[o].seen)
  /\ IF ok THEN reg' = [reg EXCEPT ![o].st = "in"] /\ UNCHANGED lk
     ELSE /\ reg' = [p \in DOMAIN reg \ {o} |-> IF reg[p].st = "adding" THEN [reg[p] EXCEPT !.conf = @ \ {o}]
                                                ELSE IF reg[o].conf = {p} /\ reg[p].st = "adding" THEN [reg[p] EXCEPT !.seen = TRUE] ELSE reg[p]]
          /\ lk' = [l \in DOMAIN lk |-> [lk[l] EXCEPT !.poss = {x \in @ : x.o # o}]]
NotSure(S) == /\ lk' = [l \in DOMAIN lk |-> [lk[l] EXCEPT !.sure = @ \ S]]
RemCall(o) ==
  /\ o \in DOMAIN reg /\ reg[o].st = "in"
  /\ reg' = [p \in DOMAIN reg |-> IF p = o THEN [reg[p] EXCEPT !.st = "removing"] ELSE [reg[p] EXCEPT !.sure = @ \ {o}]]
  /\ NotSure({o})
RemRet(o) == o \in DOMAIN reg /\ reg[o].st = "removing" /\ reg' = Without(reg, {o}) /\ UNCHANGED lk
\* everything is unregistered (no registration under way)
ClrCall == /\ reg' = [p \in DOMAIN reg |-> [reg[p] EXCEPT !.st = "removing"]]
           /\ NotSure(DOMAIN reg)
ClrRet == reg' = Empty /\ UNCHANGED lk
LkCall(l, k, a) ==
  /\ l \notin DOMAIN lk
  /\ lk' = [x \in DOMAIN lk \cup {l} |-> IF x # l THEN lk[x] ELSE
              [k |-> k, a |-> a, poss |-> {[o |-> p, s |-> reg[p].s, t |-> reg[p].t] : p \in {q \in DOMAIN reg : May(k, a, reg[q])}},
               sure |-> {p \in DOMAIN reg : reg[p].st = "in" /\ Must(k, a, reg[p])}]]
  /\ UNCHANGED reg
LkRet(l, s, t, hb) ==
  /\ l \in DOMAIN lk
  /\ lk' = Without(lk, {l})
  /\ IF s = -1 THEN R({"S01"}, lk[l].sure = {}) /\ UNCHANGED reg
     ELSE LET m == {x \in lk[l].poss : x.s = s /\ x.t = t} IN
          /\ R({"S01"}, m # {} /\ hb)
          /\ reg' = [p \in DOMAIN reg |-> IF \E x \in m : x.o = p /\ m = {x} THEN [reg[p] EXCEPT !.seen = TRUE] ELSE reg[p]]
=============================================================================
