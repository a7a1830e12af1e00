------------------------------ MODULE SampleHold ------------------------------
(***************************************************************************)
(* What one consumer holds: samples handed to the application and not yet  *)
(* released never exceed the number given at subscription.  Retrievals,    *)
(* releases and queries of several threads overlap; for each one in        *)
(* progress the specification keeps between which numbers the samples in   *)
(* use have been since it began.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  max,    \* granted at subscription; -1 not subscribed
  out,    \* buffers the binding gave out and did not get back
  held,   \* samples the application has
  going,  \* samples whose release is in progress
  gets,   \* [thread -> [k: how many it may still get, n: got, lo, hi: use by others since it began]]
  asks    \* [thread -> [lo, hi]]: queries in progress
vars == <<max, out, held, going, gets, asks>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Init0 == max = -1 /\ out = {} /\ held = {} /\ going = {} /\ gets = << >> /\ asks = << >>
With(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Less(f, D) == [x \in DOMAIN f \ D |-> f[x]]
RECURSIVE SumK(_, _)
SumK(g, S) == IF S = {} THEN 0 ELSE LET t == CHOOSE x \in S : TRUE IN g[t].k + SumK(g, S \ {t})
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
\* samples certainly / possibly in use
Sure(h) == Cardinality(h)
Poss(h, g, gg, but) == Cardinality(h) + Cardinality(g) + SumK(gg, DOMAIN gg \ but)
Upd(h, g, gg, aa) ==
  /\ held' = h /\ going' = g
  /\ gets' = [t \in DOMAIN gg |-> [gg[t] EXCEPT !.hi = MaxI(@, Poss(h \ gg[t].mine, g, gg, {t}) )]]
  /\ asks' = [t \in DOMAIN aa |-> [aa[t] EXCEPT !.lo = MinI(@, Sure(h)), !.hi = MaxI(@, Poss(h, g, gg, {}))]]
Subscribe(n, ok, refused) ==
  /\ R({"C11"}, IF max = -1 THEN ok = ~refused ELSE ok = (n = max))
  /\ max' = IF max = -1 /\ ok THEN n ELSE max
  /\ UNCHANGED <<out, held, going, gets, asks>>
Get(t, k) == t \notin DOMAIN gets /\ UNCHANGED <<max, out>> /\ Upd(held, going, With(gets, t, [k |-> k, n |-> 0, mine |-> {}, hi |-> 0, short |-> FALSE]), asks)
\* the binding puts sample b into a buffer for the consumer
Taken(b) == b \notin out /\ R({"C11"}, Cardinality(out) < max) /\ out' = out \cup {b} /\ UNCHANGED <<max, held, going, gets, asks>>
Given(t, b) ==
  /\ b \notin held /\ b \in out
  /\ R({"C11"}, Cardinality(held) < max)
  /\ R({"C11"}, t \in DOMAIN gets /\ gets[t].k > 0)
  /\ UNCHANGED <<max, out>>
  /\ Upd(held \cup {b}, going, [gets EXCEPT ![t].k = @ - 1, ![t].n = @ + 1, ![t].mine = @ \cup {b}], asks)
\* the binding has further samples but gets no permission to hand them out
Short(t) == t \in DOMAIN gets /\ gets' = [gets EXCEPT ![t].short = TRUE] /\ UNCHANGED <<max, out, held, going, asks>>
Got(t, n, full, err) ==
  /\ t \in DOMAIN gets
  /\ R({"C11"}, ~err => n = gets[t].n)
  /\ R({"C11"}, full => gets[t].n = 0 /\ (gets[t].hi >= max \/ gets[t].k = 0))
  /\ R({"C11"}, gets[t].short => gets[t].k = 0 \/ gets[t].hi + gets[t].n >= max)
  /\ UNCHANGED <<max, out>>
  /\ Upd(held, going, Less(gets, {t}), asks)
Rel(b) == b \in held /\ UNCHANGED <<max, out>> /\ Upd(held \ {b}, going \cup {b}, gets, asks)
Back(b) == b \in out /\ R({"C11"}, b \in going) /\ out' = out \ {b} /\ UNCHANGED <<max, held, going, gets, asks>>
Gone(b) == b \in going /\ R({"C11"}, b \notin out) /\ UNCHANGED <<max, out>> /\ Upd(held, going \ {b}, gets, asks)
Ask(t) == t \notin DOMAIN asks /\ UNCHANGED <<max, out>> /\ Upd(held, going, gets, With(asks, t, [lo |-> 1000, hi |-> 0]))
Free(t, n) ==
  /\ t \in DOMAIN asks
  /\ R({"C11"}, n <= max - asks[t].lo /\ n >= max - asks[t].hi)
  /\ asks' = Less(asks, {t}) /\ UNCHANGED <<max, out, held, going, gets>>
\* ending the subscription with samples still held is refused by ending the program
Unsubscribe(lives) == R({"C11"}, lives = (held = {})) /\ max' = -1 /\ UNCHANGED <<out, held, going, gets, asks>>
Bound == max >= 0 => Cardinality(held) <= max /\ Cardinality(out) <= max
=============================================================================
