------------------------------- MODULE RelPtr -------------------------------
(***************************************************************************)
(* Relocatable pointers.  Each pointer lies at some address and denotes an *)
(* address (or nothing, -1).  A pointer lying in a registered region may   *)
(* only be dereferenced if it and its target lie completely in this        *)
(* region; one lying elsewhere remembers the region it was taken from (if  *)
(* any) and may only be dereferenced if its target lies completely in it.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES rg,    \* regions: sequence of <<start, end>>
          ps,    \* size of a pointer
          p      \* [pointer -> [loc, t, org: region or 0]]
vars == <<rg, ps, p>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Empty == [x \in {} |-> 0]
Init == rg = <<>> /\ ps = 0 /\ p = Empty
Begin(r, s) == rg' = r /\ ps' = s /\ p' = Empty
\* region an address lies in, 0: none
At(a) == IF \E k \in DOMAIN rg : rg[k][1] <= a /\ a < rg[k][2] THEN CHOOSE k \in DOMAIN rg : rg[k][1] <= a /\ a < rg[k][2] ELSE 0
In(k, a, size) == rg[k][1] <= a /\ a + size <= rg[k][2]
Set(i, x) == p' = [j \in DOMAIN p \cup {i} |-> IF j = i THEN x ELSE p[j]]
\* what a copy at loc of pointer x remembers
Org(loc, x) == IF x.t = -1 \/ At(loc) # 0 THEN 0 ELSE IF At(x.loc) # 0 THEN At(x.loc) ELSE x.org

New(i, loc, t, is) == R({"S02"}, is = t) /\ Set(i, [loc |-> loc, t |-> t, org |-> 0]) /\ UNCHANGED <<rg, ps>>
Copy(i, loc, q, is) == R({"S02"}, is = p[q].t) /\ Set(i, [loc |-> loc, t |-> p[q].t, org |-> Org(loc, p[q])]) /\ UNCHANGED <<rg, ps>>
Assign(i, q, is) == /\ R({"S02"}, is = p[q].t)
                    /\ IF i = q THEN UNCHANGED p ELSE Set(i, [loc |-> p[i].loc, t |-> p[q].t, org |-> Org(p[i].loc, p[q])])
                    /\ UNCHANGED <<rg, ps>>
AssignRaw(i, t, is) == R({"S02"}, is = t) /\ Set(i, [loc |-> p[i].loc, t |-> t, org |-> 0]) /\ UNCHANGED <<rg, ps>>
\* moved in place by arithmetic
Move(i, t, is) == R({"S02"}, is = t) /\ Set(i, [p[i] EXCEPT !.t = t]) /\ UNCHANGED <<rg, ps>>
\* new pointer denoting an element t apart from what q denotes
Sum(i, loc, q, t, is) == R({"S02"}, is = t) /\ Set(i, [loc |-> loc, t |-> t, org |-> Org(loc, p[q])]) /\ UNCHANGED <<rg, ps>>
Swap(i, q, a, b) == /\ R({"S02"}, a = p[q].t /\ b = p[i].t)
                    /\ p' = [p EXCEPT ![i].t = p[q].t, ![i].org = Org(p[i].loc, p[q]), ![q].t = p[i].t, ![q].org = Org(p[q].loc, p[i])]
                    /\ UNCHANGED <<rg, ps>>
\* the bytes of q's region appear d apart (the region is mapped elsewhere)
Remap(i, loc, q, d, is) == /\ loc = p[q].loc + d
                           /\ R({"S02"}, is = IF p[q].t = -1 THEN -1 ELSE p[q].t + d)
                           /\ Set(i, [loc |-> loc, t |-> IF p[q].t = -1 THEN -1 ELSE p[q].t + d, org |-> 0]) /\ UNCHANGED <<rg, ps>>
Gone(i) == p' = [j \in DOMAIN p \ {i} |-> p[j]] /\ UNCHANGED <<rg, ps>>
\* does a pointer that lies at loc only partly lie in a region?
Straddles(loc) == \E k \in DOMAIN rg : loc < rg[k][2] /\ rg[k][1] < loc + ps /\ ~In(k, loc, ps)
Allowed(x, off, size) ==
  IF x.t = -1 THEN TRUE
  ELSE IF Straddles(x.loc) THEN FALSE
  ELSE IF At(x.loc) # 0 THEN In(At(x.loc), x.t + off, size)
  ELSE x.org = 0 \/ In(x.org, x.t + off, size)
\* how = 9: use of a null pointer that needs an object.  Null pointers lying on a boundary may be refused.
Deref(i, how, off, size, ok, got) ==
  /\ IF p[i].t = -1
     THEN IF how = 9 THEN TRUE ELSE R({"S02"}, (ok => got = -1) /\ (~ok => Straddles(p[i].loc)))
     ELSE R({"S02"}, ok = Allowed(p[i], off, size) /\ (ok => got = p[i].t + off))
  /\ UNCHANGED vars
Cmp(i, q, eq, ne, le, lt, ge, gt, nul, b, d) ==
  LET x == p[i].t  y == p[q].t IN
  /\ R({"S02"}, /\ eq = (x = y) /\ ne = (x # y) /\ nul = (x = -1) /\ b = (x # -1)
                /\ (x # -1 /\ y # -1) => (le = (x <= y) /\ lt = (x < y) /\ ge = (x >= y) /\ gt = (x > y) /\ (d = 77777 \/ d = x - y)))
  /\ UNCHANGED vars
=============================================================================
