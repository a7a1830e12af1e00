----------------------------- MODULE Subscription -----------------------------
(***************************************************************************)
(* The subscription of consumers' events.  Each consumer makes calls (one  *)
(* or two application threads) while discovery reports the provider's going and    *)
(* returning (another thread).  Every call takes effect at one moment      *)
(* between its begin and its end, so for each consumer the specification   *)
(* keeps the set of all configurations it may be in; what is observed      *)
(* (results, told states, called receive handlers) narrows that set, and   *)
(* an observation no configuration explains breaks the property.           *)
(* A configuration: st not subscribed "ns", pending "pend", subscribed     *)
(* "sub"; av provider known to be there; n samples subscribed for; h state *)
(* change handler (0 none); tell: state change still to be told; rh        *)
(* receive handler; p: per thread the call in progress.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  cap,    \* [slots, subs]: what can be subscribed for at once
  conf,   \* [consumer -> set of configurations]
  hi,     \* [consumer -> most samples it may have had subscribed since its call began]
  may     \* [consumer -> might its subscribe call in progress be refused?]
vars == <<cap, conf, hi, may>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Init0 == cap = [slots |-> 0, subs |-> 0] /\ conf = << >> /\ hi = << >> /\ may = << >>
With(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Thr == {0, 1, 2}     \* 1: discovery
None == [op |-> "none", n |-> 0, h |-> 0, ph |-> "no", v |-> ""]
Fresh(av) == [st |-> "ns", av |-> av, n |-> 0, h |-> 0, tell |-> "", by |-> 0, rh |-> 0, p |-> [t \in Thr |-> None]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
\* may a subscription of consumer c for n samples be refused, given what the others may use?
Full(f, c, n) == LET O == {o \in DOMAIN f : o # c /\ f[o] > 0} IN O # {} /\ (Cardinality(O) >= cap.subs \/ Sum(f, O) + n > cap.slots)
Done(k, t, v) == [k EXCEPT !.p[t].ph = "done", !.p[t].v = v]
Go(k, t, st) == LET d == Done([k EXCEPT !.st = st], t, "ok") IN IF k.h # 0 THEN [d EXCEPT !.tell = st, !.by = t] ELSE d
\* the configurations in which the call of thread t has taken effect
Effect(k, t, refusable) ==
  LET p == k.p[t] IN
  CASE p.op = "sub" ->
         IF k.st = "ns" THEN {[Go(k, t, IF k.av THEN "sub" ELSE "pend") EXCEPT !.n = p.n]} \cup (IF refusable \/ p.n > cap.slots THEN {Done(k, t, "err")} ELSE {})
         ELSE {Done(k, t, IF p.n = k.n THEN "ok" ELSE "err")}
    [] p.op = "unsub" -> IF k.st = "ns" THEN {Done(k, t, "ok")} ELSE {[Go(k, t, "ns") EXCEPT !.n = 0, !.rh = 0]}
    [] p.op = "get" -> {Done(k, t, k.st)}
    [] p.op = "set" -> {[Done(k, t, "ok") EXCEPT !.h = p.h]}
    [] p.op = "unset" -> {[Done(k, t, "ok") EXCEPT !.h = 0]}
    [] p.op = "rh" -> {[Done(k, t, "ok") EXCEPT !.rh = p.h]}
    [] p.op = "unrh" -> {[Done(k, t, "ok") EXCEPT !.rh = 0]}
    [] p.op = "free" -> {Done(k, t, "ok")}
    [] p.op = "up" -> IF k.st = "pend" THEN {[Go(k, t, "sub") EXCEPT !.av = TRUE]} ELSE {[Done(k, t, "ok") EXCEPT !.av = TRUE]}
    [] p.op = "down" -> IF k.st = "sub" THEN {[Go(k, t, "pend") EXCEPT !.av = FALSE]} ELSE {[Done(k, t, "ok") EXCEPT !.av = FALSE]}
\* a change is told before anything else can change
Step1(K, refusable) == K \cup UNION {IF k.tell # "" THEN {} ELSE UNION {Effect(k, t, refusable) : t \in {u \in Thr : k.p[u].ph = "pend"}} : k \in K}
Closure(K, refusable) == Step1(Step1(Step1(K, refusable), refusable), refusable)
Wants(K) == Max({0} \cup UNION {{k.p[t].n : t \in {0, 2}} : k \in K})
HiOf(K) == Max({Wants(K)} \cup {k.n : k \in K})
Upd(c, K, keep, fresh) ==
  /\ R({"C10"}, K # {})
  /\ conf' = [conf EXCEPT ![c] = K]
  /\ hi' = [hi EXCEPT ![c] = IF keep THEN Max({@, HiOf(K)}) ELSE HiOf(K)]
  /\ may' = [x \in DOMAIN may |-> (may[x] /\ ~(fresh /\ x = c)) \/ Full(hi', x, Wants(conf'[x]))]
  /\ UNCHANGED cap
Up(c, K) == Upd(c, K, TRUE, FALSE)
Begin(slots, subs) == cap' = [slots |-> slots, subs |-> subs] /\ conf' = << >> /\ hi' = << >> /\ may' = << >>
New(c, av) == conf' = With(conf, c, {Fresh(av)}) /\ hi' = With(hi, c, 0) /\ may' = With(may, c, FALSE) /\ UNCHANGED cap
Call(c, t, op, n, h) == Upd(c, {[k EXCEPT !.p[t] = [op |-> op, n |-> n, h |-> h, ph |-> "pend", v |-> ""]] : k \in conf[c]}, TRUE, t # 1)
Settled(c) == Closure(conf[c], may[c])
Ret(c, t, v) == Upd(c, {[k EXCEPT !.p[t] = None] : k \in {x \in Settled(c) : x.p[t].ph = "done" /\ x.p[t].v = v /\ (x.tell = "" \/ x.by # t)}}, t = 1, t # 1)
Told(c, h, s, keep) == Up(c, {[k EXCEPT !.tell = "", !.h = IF keep THEN h ELSE 0] : k \in {x \in Settled(c) : x.tell = s /\ x.h = h}})
Called(c, h) == Up(c, {k \in Settled(c) : k.rh = h /\ k.st # "ns"})
FreeIs(c, n) == Up(c, {k \in Settled(c) : k.st # "ns" => k.n = n})
\* nothing is going on any more and an update of the event was announced
Quiet(c, called) == Up(c, {k \in conf[c] : k.tell = "" /\ called = IF k.st = "sub" /\ k.rh # 0 THEN <<k.rh>> ELSE <<>>})
Bad == R({"C10"}, FALSE) /\ UNCHANGED vars
=============================================================================
