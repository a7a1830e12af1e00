---------------------------- MODULE MC_RegionMap ---------------------------
(***************************************************************************)
(* The versioned region map: writers (one at a time) copy the latest       *)
(* version into an unused one, change it and publish it; readers take a    *)
(* reference on the version they believe to be the latest.  Checked        *)
(* against the rules of RegionMap.                                         *)
(***************************************************************************)
EXTENDS RegionMap
CONSTANTS N,          \* versions
          Rd,         \* readers
          MaxOps, MaxLk,
          GiveBack    \* TRUE: a refused registration returns its version with refcount 0 (the repaired code)
INVALID == 100        \* being written; increments of outdated readers come on top
VARIABLES ver,        \* [0..N-1 -> set of registrations, or {0} while being copied]
          rc, latest,
          w,          \* writer: [pc, o, v, n]
          r,          \* [reader -> [pc, l, v, c]]
          nop, nlk
mvars == <<ver, rc, latest, w, r, nop, nlk>>
V == 0..(N - 1)
Regions == {<<0, 2>>, <<1, 3>>, <<2, 4>>}      \* overlapping and adjacent ones
Idle == [pc |-> "idle", o |-> 0, v |-> 0]
MCInit == /\ Init /\ ver = [v \in V |-> {}] /\ rc = [v \in V |-> IF v = 0 THEN 0 ELSE INVALID]
          /\ latest = 0 /\ w = Idle /\ r = [k \in Rd |-> [pc |-> "idle", l |-> 0, v |-> 0, c |-> {}]] /\ nop = 0 /\ nlk = 0
Content(S) == {<<reg[o].s, reg[o].t>> : o \in S}
\* ---- writer
WStart == /\ w.pc = "idle" /\ nop < MaxOps
          /\ \/ \E x \in Regions : /\ ~\E o \in DOMAIN reg : reg[o].s = x[1]        \* equal start addresses are excluded by assertion
                                   /\ InsCall(nop + 1, nop + 1, x[1], x[2], FALSE)
                                   /\ w' = [pc |-> "claim", o |-> nop + 1, v |-> 0]
             \/ \E o \in DOMAIN reg : RemCall(o) /\ w' = [pc |-> "claim", o |-> 0 - o, v |-> 0]
          /\ nop' = nop + 1 /\ UNCHANGED <<ver, rc, latest, r, nlk>>
Free(v) == v # latest /\ (rc[v] = 0 \/ rc[v] = INVALID)
WClaim == /\ w.pc = "claim"
          /\ \E v \in V : Free(v) /\ w' = [w EXCEPT !.pc = "copy", !.v = v] /\ rc' = [rc EXCEPT ![v] = INVALID]
          /\ UNCHANGED <<reg, lk, ver, latest, r, nop, nlk>>
WCopy == /\ w.pc = "copy" /\ ver' = [ver EXCEPT ![w.v] = {0}] /\ w' = [w EXCEPT !.pc = "change"]
         /\ UNCHANGED <<reg, lk, rc, latest, r, nop, nlk>>
Clash(o, S) == \E p \in S : Overlap(reg[o], reg[p])
WChange == /\ w.pc = "change"
           /\ IF w.o < 0 THEN ver' = [ver EXCEPT ![w.v] = ver[latest] \ {0 - w.o}] /\ w' = [w EXCEPT !.pc = "refcount"] /\ UNCHANGED rc
              ELSE IF Clash(w.o, ver[latest])
                   THEN /\ ver' = [ver EXCEPT ![w.v] = IF GiveBack THEN ver[latest] ELSE ver[latest] \cup {w.o}]
                        /\ w' = [w EXCEPT !.pc = IF GiveBack THEN "giveback" ELSE "refused"] /\ UNCHANGED rc
                   ELSE ver' = [ver EXCEPT ![w.v] = ver[latest] \cup {w.o}] /\ w' = [w EXCEPT !.pc = "refcount"] /\ UNCHANGED rc
           /\ UNCHANGED <<reg, lk, latest, r, nop, nlk>>
WGiveBack == w.pc = "giveback" /\ rc' = [rc EXCEPT ![w.v] = 0] /\ w' = [w EXCEPT !.pc = "refused"] /\ UNCHANGED <<reg, lk, ver, latest, r, nop, nlk>>
WRefcount == w.pc = "refcount" /\ rc' = [rc EXCEPT ![w.v] = 0] /\ w' = [w EXCEPT !.pc = "publish"] /\ UNCHANGED <<reg, lk, ver, latest, r, nop, nlk>>
WPublish == w.pc = "publish" /\ latest' = w.v /\ w' = [w EXCEPT !.pc = "done"] /\ UNCHANGED <<reg, lk, ver, rc, r, nop, nlk>>
WRet == /\ w.pc \in {"done", "refused"}
        /\ IF w.o < 0 THEN RemRet(0 - w.o) ELSE InsRet(w.o, w.pc = "done")
        /\ w' = Idle /\ UNCHANGED <<ver, rc, latest, r, nop, nlk>>
\* ---- readers
RStart(k) == /\ r[k].pc = "idle" /\ nlk < MaxLk
             /\ \E a \in 0..3 : LkCall(nlk + 1, "a", a)
             /\ nlk' = nlk + 1 /\ r' = [r EXCEPT ![k] = [pc |-> "take", l |-> nlk + 1, v |-> latest, c |-> {}]]
             /\ UNCHANGED <<ver, rc, latest, w, nop>>
RTake(k) == /\ r[k].pc = "take" /\ rc' = [rc EXCEPT ![r[k].v] = @ + 1]
            /\ r' = [r EXCEPT ![k].pc = IF rc[r[k].v] < INVALID - 1 THEN "read" ELSE "load"]
            /\ UNCHANGED <<reg, lk, ver, latest, w, nop, nlk>>
RLoad(k) == r[k].pc = "load" /\ r' = [r EXCEPT ![k].pc = "take", ![k].v = latest] /\ UNCHANGED <<reg, lk, ver, rc, latest, w, nop, nlk>>
RRead(k) == r[k].pc = "read" /\ r' = [r EXCEPT ![k].pc = "again", ![k].c = ver[r[k].v]] /\ UNCHANGED <<reg, lk, ver, rc, latest, w, nop, nlk>>
RAgain(k) == /\ r[k].pc = "again"
             /\ Assert(ver[r[k].v] = r[k].c /\ 0 \notin r[k].c, "read while being written")
             /\ LET a == lk[r[k].l].a
                    hit == {o \in r[k].c : \E x \in lk[r[k].l].poss : x.o = o} IN
                IF r[k].c \subseteq {x.o : x \in lk[r[k].l].poss} \cup {o \in r[k].c : o \in DOMAIN reg /\ ~May("a", a, reg[o])}
                          \cup {o \in r[k].c : o \notin DOMAIN reg}
                THEN IF hit # {} THEN LET x == CHOOSE x \in lk[r[k].l].poss : x.o \in hit IN
                                      \* the end address may belong to the neighbour
                                      \E y \in {z \in lk[r[k].l].poss : z.o \in hit} : LkRet(r[k].l, y.s, y.t, TRUE)
                     ELSE Assert(lk[r[k].l].sure = {}, "registered region not found") /\ LkRet(r[k].l, -1, -1, TRUE)
                ELSE Assert(FALSE, "region which was not registered")
             /\ r' = [r EXCEPT ![k].pc = "drop"] /\ UNCHANGED <<ver, rc, latest, w, nop, nlk>>
RDrop(k) == /\ r[k].pc = "drop" /\ rc' = [rc EXCEPT ![r[k].v] = @ - 1] /\ r' = [r EXCEPT ![k].pc = "idle"]
            /\ UNCHANGED <<reg, lk, ver, latest, w, nop, nlk>>
MCNext == \/ WStart \/ WClaim \/ WCopy \/ WChange \/ WGiveBack \/ WRefcount \/ WPublish \/ WRet
          \/ \E k \in Rd : RStart(k) \/ RTake(k) \/ RLoad(k) \/ RRead(k) \/ RAgain(k) \/ RDrop(k)
MCSpec == MCInit /\ [][MCNext]_<<vars, mvars>>
\* with no lookup under way a version can always be claimed
CanRegister == (w.pc \in {"idle", "claim"} /\ \A k \in Rd : r[k].pc = "idle") => Cardinality({v \in V : Free(v)}) = N - 1
\* the outcome of a registration is the one the rules demand
Outcome == w.pc \in {"done", "refused"} /\ w.o > 0 => IF w.pc = "done" THEN reg[w.o].sure = {} ELSE reg[w.o].conf # {} /\ ~reg[w.o].seen
\* registered regions never overlap
NoOverlap == \A o, p \in DOMAIN reg : (o # p /\ reg[o].st = "in" /\ reg[p].st = "in") => ~Conflict(reg[o], reg[p])
\* the latest version is what is registered
Latest == w.pc = "idle" => {o \in DOMAIN reg : reg[o].st = "in"} = ver[latest]
=============================================================================
