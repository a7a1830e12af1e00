------------------------------ MODULE ShmObject ------------------------------
(***************************************************************************)
(* A named shared memory object that several processes create, open,       *)
(* create-or-open and remove.  An incarnation of the object is named by    *)
(* its inode.  Operations (t, of process p) overlap; the specification     *)
(* keeps, for each operation in progress, what may have been true at some  *)
(* moment since it began.                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  objs,   \* [incarnation -> [done: initialised, link: "y" reachable by name, "m" maybe, "n" not any more]]
  ops,    \* [operation -> what is known about it]
  hold,   \* set of <<operation's thread, process, incarnation>>: resources in use
  stuck,  \* somebody died inside an operation: the lock may never be given back
  ghost   \* somebody died before it was known which incarnation it made: there may be an uninitialised one
vars == <<objs, ops, hold, stuck, ghost>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Init0 == objs = << >> /\ ops = << >> /\ hold = {} /\ stuck = FALSE /\ ghost = FALSE
With(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Less(f, D) == [x \in DOMAIN f \ D |-> f[x]]
\* k: "c" create, "o" open, "x" create or open, "r" remove, "s" remove stale artefacts
Lockers(o) == {t \in DOMAIN o : o[t].k \in {"c", "o", "x"}}
Creators(o) == {t \in DOMAIN o : o[t].k \in {"c", "x"}}
Removers(o) == {t \in DOMAIN o : o[t].k \in {"r", "s"}}
Upd(o, b, st, gh) == [t \in DOMAIN o |-> [o[t] EXCEPT
   !.busy = @ \/ st \/ Lockers(o) \ {t} # {},
   !.absent = @ \/ ~(\E i \in DOMAIN b : b[i].link = "y" /\ b[i].done),
   !.present = @ \/ gh \/ (\E i \in DOMAIN b : b[i].link # "n" /\ i # o[t].mine) \/ Creators(o) \ {t} # {},
   !.removed = @ \/ Removers(o) # {},
   !.seen = @ \cup {i \in DOMAIN b : b[i].link # "n"},
   !.stuck = @ \/ st]]
Set(o, b, h, st, gh) == objs' = b /\ ops' = Upd(o, b, st, gh) /\ hold' = h /\ stuck' = st /\ ghost' = gh
Holds(p) == {x[3] : x \in {y \in hold : y[2] = p}}

\* acc: this caller may use what the object's owner provides
Call(t, p, k, acc) ==
  /\ t \notin DOMAIN ops
  /\ LET o == With(ops, t, [p |-> p, k |-> k, acc |-> acc, mine |-> 0, busy |-> FALSE, absent |-> FALSE, present |-> FALSE, removed |-> FALSE, seen |-> {}, stuck |-> FALSE])
         b == IF k \in {"r", "s"} THEN [i \in DOMAIN objs |-> [objs[i] EXCEPT !.link = IF @ = "y" THEN "m" ELSE @]] ELSE objs IN
     Set(o, b, hold, stuck, ghost)
\* the caller of a creation initialises a new incarnation
InitBegin(t, i) ==
  /\ t \in DOMAIN ops
  /\ R({"S03"}, ops[t].k \in {"c", "x"} /\ ops[t].mine = 0)
  /\ R({"S03"}, \A j \in DOMAIN objs \ {i} : objs[j].link # "y")                 \* created once
  /\ R({"S03"}, i \in DOMAIN objs => objs[i].link = "n")
  /\ Set([ops EXCEPT ![t].mine = i], With(objs, i, [done |-> FALSE, link |-> "y"]), hold, stuck, ghost)
InitEnd(t) == t \in DOMAIN ops /\ ops[t].mine # 0 /\ Set(ops, [objs EXCEPT ![ops[t].mine].done = TRUE], hold, stuck, ghost)
\* i: the incarnation obtained, 0 none; whole: everything the initialisation wrote is there; flt: a system call was made to fail
Ret(t, i, whole, flt) ==
  LET o == ops[t] IN
  /\ t \in DOMAIN ops /\ o.k \in {"c", "o", "x"}
  /\ IF i = 0
     THEN /\ R({"S03"}, CASE o.k = "c" -> flt \/ o.busy \/ o.present \/ Holds(o.p) # {}
                          [] o.k = "o" -> flt \/ ~o.acc \/ o.absent
                          [] OTHER     -> flt \/ ~o.acc \/ o.removed)
          /\ Set(Less(ops, {t}), objs, hold, stuck, ghost)
     ELSE /\ R({"S03"}, i \in DOMAIN objs)
          /\ R({"S03"}, o.acc \/ o.k = "c")
          /\ R({"S03"}, IF o.mine # 0 THEN i = o.mine ELSE o.k # "c")
          /\ R({"S03"}, whole /\ objs[i].done)
          /\ R({"S03"}, i \in o.seen \cup Holds(o.p))
          /\ Set(Less(ops, {t}), objs, hold \cup {<<t, o.p, i>>}, stuck, ghost)
Removed(t) == t \in DOMAIN ops /\ ops[t].k = "r"
              /\ Set(Less(ops, {t}), [i \in DOMAIN objs |-> [objs[i] EXCEPT !.link = IF @ = "m" THEN "n" ELSE @]], hold, stuck, ghost)
Cleared(t) == t \in DOMAIN ops /\ ops[t].k = "s"
              /\ Set(Less(ops, {t}), [i \in DOMAIN objs |-> [objs[i] EXCEPT !.link = "n"]], hold, FALSE, FALSE)
Drop(t) == LET h == {x \in hold : x[1] # t} IN Set(ops, objs, h, stuck, ghost)
Gone(p) ==
  LET D == {t \in DOMAIN ops : ops[t].p = p} IN
  Set(Less(ops, D), objs, {x \in hold : x[2] # p},
      stuck \/ \E t \in D : ops[t].k # "r",
      ghost \/ \E t \in D : ops[t].k \in {"c", "x"} /\ ops[t].mine = 0)
Crash(p) == Gone(p)
\* the process of t ends itself: only when it would otherwise have waited for ever for somebody who is dead
Dies(t, flt) == t \in DOMAIN ops /\ R({"S03"}, flt \/ ops[t].stuck) /\ Gone(ops[t].p)
AtRest(p, fds, maps) == R({"S03"}, fds = Cardinality(Holds(p)) /\ maps = fds) /\ UNCHANGED vars
NamesAtRest(obj, lock) ==
  /\ R({"S03"}, IF obj THEN ghost \/ \E i \in DOMAIN objs : objs[i].link # "n" ELSE \A i \in DOMAIN objs : objs[i].link # "y")
  /\ R({"S03"}, lock => stuck)
  /\ UNCHANGED vars
OneName == Cardinality({i \in DOMAIN objs : objs[i].link = "y"}) <= 1
=============================================================================
