------------------------------ MODULE FileLock ------------------------------
(***************************************************************************)
(* Lock files and file mutexes of several processes.  A handle is an open  *)
(* lock file; it refers to one file (its incarnation, named by its inode). *)
(*  - exclusive creation: path "A" is only ever created exclusively, and   *)
(*    disappears when the creating handle is destroyed (not when its       *)
(*    process dies);                                                       *)
(*  - mutexes: a handle locks its file exclusively or shared.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  hs,      \* [handle -> [p: process, path, k: how opened, own, ino, st: "opening"|"open"|"closing", md: 0|"S"|"X" definitely held, may: 0|"S"|"X" possibly held]]
  att,     \* [handle -> TRUE if somebody else may have been in the way of the attempt (creation or try) in progress on it]
  left     \* files of path A left behind: [sure, maybe]: numbers of
vars == <<hs, att, left>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
Init0 == hs = << >> /\ att = << >> /\ left = [sure |-> 0, maybe |-> 0]
With(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Less(f, D) == [x \in DOMAIN f \ D |-> f[x]]
Hs == DOMAIN hs
\* --- existence of the file of path A
Creating(h) == hs[h].k = "c" /\ hs[h].st \in {"opening", "open", "closing"}      \* the file may exist through h
Owning(h) == hs[h].k = "c" /\ hs[h].st = "open"                                  \* the file exists through h
MayExist(h) == left.sure + left.maybe > 0 \/ \E g \in Hs \ {h} : Creating(g)
\* --- locks
Conflict(x, y) == (x = "X" /\ y # "0") \/ (y = "X" /\ x # "0")
InTheWay(h, x, f) == \E g \in DOMAIN f \ {h} : f[g].ino = f[h].ino /\ f[g].st # "opening" /\ Conflict(x, f[g].may)
\* somebody who newly may hold, or newly may have created, something is in the way of attempts in progress
AttAfter(f) == [h \in DOMAIN att \cap DOMAIN f |->
   att[h] \/ IF f[h].st = "opening" THEN f[h].k = "c" /\ \E g \in DOMAIN f \ {h} : f[g].k = "c"
             ELSE InTheWay(h, f[h].try, f)]

OpenCall(h, p, path, k, own) ==
  /\ h \notin Hs
  /\ LET f == With(hs, h, [p |-> p, path |-> path, k |-> k, own |-> own, ino |-> 0, st |-> "opening", md |-> "0", may |-> "0", try |-> "0"]) IN
     /\ hs' = f
     /\ att' = With(AttAfter(f), h, k = "c" /\ (left.sure + left.maybe > 0 \/ \E g \in Hs : Creating(g)))
  /\ UNCHANGED left
\* flt: a system call of the operation was made to fail
OpenRet(h, ok, ino, flt) ==
  /\ h \in Hs /\ hs[h].st = "opening"
  /\ IF ok
     THEN /\ R({"S04"}, hs[h].k = "c" => left.sure = 0 /\ \A g \in Hs \ {h} : ~Owning(g))      \* at most one created it
          /\ R({"S04"}, hs[h].path = "B" => \A g \in Hs \ {h} : hs[g].path = "B" /\ hs[g].st # "opening" => hs[g].ino = ino)
          /\ hs' = [hs EXCEPT ![h].st = "open", ![h].ino = ino]
          /\ left' = IF hs[h].k = "c" THEN [left EXCEPT !.maybe = 0] ELSE left                  \* whatever might have been left was not
     ELSE /\ R({"S04"}, flt \/ (hs[h].k = "c" => att[h]))                                       \* refused only if it was there
          /\ R({"S04"}, hs[h].k = "c" \/ hs[h].path = "C" \/ flt)                                               \* nothing is in the way of opening or creating
          /\ hs' = Less(hs, {h}) /\ UNCHANGED left
  /\ att' = Less(att, {h})
CloseCall(h) == h \in Hs /\ hs[h].st = "open" /\ hs' = [hs EXCEPT ![h].st = "closing", ![h].md = "0"] /\ UNCHANGED <<att, left>>
CloseRet(h) == h \in Hs /\ hs[h].st = "closing" /\ hs' = Less(hs, {h}) /\ UNCHANGED <<att, left>>
\* x: "S" shared, "X" exclusive; try: without waiting
LockCall(h, x, try) ==
  /\ h \in Hs /\ hs[h].st = "open" /\ hs[h].md = "0"
  /\ LET f == [hs EXCEPT ![h].may = x, ![h].try = x] IN
     /\ hs' = f
     /\ att' = With(AttAfter(f), h, InTheWay(h, x, f))
  /\ UNCHANGED left
LockRet(h, ok, flt) ==
  LET x == hs[h].try IN
  /\ h \in Hs /\ hs[h].try # "0"
  /\ IF ok
     THEN /\ R({"S04"}, \A g \in Hs \ {h} : hs[g].ino = hs[h].ino /\ hs[g].st # "opening" => ~Conflict(x, hs[g].md))
          /\ hs' = [hs EXCEPT ![h].md = x, ![h].try = "0"]
     ELSE /\ R({"S04"}, flt \/ att[h])
          /\ hs' = [hs EXCEPT ![h].may = "0", ![h].try = "0"]
  /\ att' = Less(att, {h})
  /\ UNCHANGED left
UnlockCall(h) == h \in Hs /\ hs[h].md # "0" /\ hs' = [hs EXCEPT ![h].md = "0"] /\ UNCHANGED <<att, left>>
UnlockRet(h) == h \in Hs /\ hs[h].md = "0" /\ hs[h].try = "0" /\ hs' = [hs EXCEPT ![h].may = "0"] /\ UNCHANGED <<att, left>>
\* the process is gone, with all its locks; what it had created exclusively stays
Crash(p) ==
  LET D == {h \in Hs : hs[h].p = p} IN
  /\ hs' = Less(hs, D) /\ att' = Less(att, D)
  /\ left' = [sure |-> left.sure + Cardinality({h \in D : hs[h].k = "c" /\ hs[h].st = "open"}),
              maybe |-> left.maybe + Cardinality({h \in D : hs[h].k = "c" /\ hs[h].st # "open"})]
\* nobody of process p is in an operation: it has as many descriptors open as it has handles; the file of path A exists as it should
AtRest(p, fds) == R({"S04"}, fds = Cardinality({h \in Hs : hs[h].p = p})) /\ UNCHANGED vars
NameAtRest(ex) == R({"S04"}, IF ex THEN left.sure + left.maybe > 0 \/ \E h \in Hs : hs[h].k = "c"
                             ELSE left.sure = 0 /\ \A h \in Hs : ~Owning(h)) /\ UNCHANGED vars
\* safety, for the models
Exclusive == \A g, h \in Hs : g # h /\ hs[g].ino = hs[h].ino /\ hs[g].st # "opening" /\ hs[h].st # "opening" => ~Conflict(hs[g].md, hs[h].md)
OneCreator == \A g, h \in Hs : Owning(g) /\ Owning(h) => g = h
=============================================================================
