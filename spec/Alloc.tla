-------------------------------- MODULE Alloc --------------------------------
(***************************************************************************)
(* Allocations of several processes from one shared region.  The region's  *)
(* payload is the byte range [low, high); a request for n bytes with       *)
(* alignment a yields an offset or fails.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  low, high,  \* payload
  blocks,     \* granted: set of [o |-> offset, n |-> size]
  pend,       \* [process -> [n, a]] requests in progress
  lost        \* sequence of requests whose process died inside: may or may not have taken something
vars == <<low, high, blocks, pend, lost>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Max(S, d) == CHOOSE x \in S \cup {d} : \A y \in S \cup {d} : y <= x
Up(x, a) == ((x + a - 1) \div a) * a
Top == Max({b.o + b.n : b \in blocks}, low)     \* everything granted lies below
RECURSIVE Sum(_)
Sum(s) == IF s = << >> THEN 0 ELSE Head(s).n + Head(s).a - 1 + Sum(Tail(s))
RECURSIVE SumF(_, _)
SumF(f, D) == IF D = {} THEN 0 ELSE LET x == CHOOSE x \in D : TRUE IN f[x].n + f[x].a - 1 + SumF(f, D \ {x})
\* how far the granted part may reach at most, whatever became of the requests of other processes in progress
Reach(p) == Top + Sum(lost) + SumF(pend, DOMAIN pend \ {p})
Disjoint(b, c) == b.n = 0 \/ c.n = 0 \/ b.o + b.n <= c.o \/ c.o + c.n <= b.o

Init0(l, h) == low = l /\ high = h /\ blocks = {} /\ pend = << >> /\ lost = << >>
AllocCall(p, n, a) ==
  /\ p \notin DOMAIN pend
  /\ pend' = [x \in DOMAIN pend \cup {p} |-> IF x = p THEN [n |-> n, a |-> a] ELSE pend[x]]
  /\ UNCHANGED <<low, high, blocks, lost>>
Drop(p) == [x \in DOMAIN pend \ {p} |-> pend[x]]
\* al: the returned address is a multiple of the requested alignment
AllocRet(p, o, al) ==
  LET n == pend[p].n  b == [o |-> o, n |-> n] IN
  /\ p \in DOMAIN pend
  /\ R({"S05"}, al)
  /\ R({"S05"}, o >= low /\ o + n <= high)
  /\ R({"S05"}, \A c \in blocks : Disjoint(b, c))
  /\ blocks' = blocks \cup {b}
  /\ pend' = Drop(p)
  /\ UNCHANGED <<low, high, lost>>
\* a request fails only if it does not fit, and takes nothing
AllocFail(p) ==
  /\ p \in DOMAIN pend
  /\ R({"S05"}, Up(Reach(p), pend[p].a) + pend[p].n > high)
  /\ pend' = Drop(p)
  /\ UNCHANGED <<low, high, blocks, lost>>
Crash(p) ==
  /\ lost' = IF p \in DOMAIN pend THEN Append(lost, pend[p]) ELSE lost
  /\ pend' = Drop(p)
  /\ UNCHANGED <<low, high, blocks>>
\* nobody is allocating: the amount taken, as reported by the region
AtRest(u) ==
  /\ pend = << >>
  /\ R({"S05"}, low + u >= Top /\ low + u <= Reach(0))
  /\ UNCHANGED vars
=============================================================================
