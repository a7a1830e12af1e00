------------------------------ MODULE MC_RelPtr -----------------------------
(* Pointers represented by their offset and, outside of the regions, the bounds they were taken from: this              *)
(* representation is checked to decide exactly what RelPtr demands.  OldSwap: exchange through a raw pointer.            *)
EXTENDS RelPtr
CONSTANTS Locs, Ids, OldSwap
VARIABLES c    \* [pointer -> [loc, off: offset or NULL, b: region or 0]]
Null == 1000
Regions == <<<<2, 6>>, <<8, 12>>>>
Addr == 1..12
MCInit == rg = Regions /\ ps = 1 /\ p = Empty /\ c = Empty
\* representation
FromRaw(loc, t) == [loc |-> loc, off |-> IF t = -1 THEN Null ELSE t - loc, b |-> 0]
Tgt(x) == IF x.off = Null THEN -1 ELSE x.loc + x.off
CopyOf(loc, x) == [loc |-> loc, off |-> IF Tgt(x) = -1 THEN Null ELSE Tgt(x) - loc,
                   b |-> IF Tgt(x) = -1 THEN 0 ELSE IF At(x.loc) # 0 /\ At(loc) = 0 THEN At(x.loc) ELSE IF At(x.loc) = 0 /\ At(loc) = 0 THEN x.b ELSE 0]
Put(i, x) == c' = [j \in DOMAIN c \cup {i} |-> IF j = i THEN x ELSE c[j]]
Passes(x, size) == IF x.off = Null THEN TRUE
                   ELSE IF At(x.loc) # 0 THEN rg[At(x.loc)][1] <= Tgt(x) /\ Tgt(x) + size <= rg[At(x.loc)][2]
                   ELSE x.b = 0 \/ (rg[x.b][1] <= Tgt(x) /\ Tgt(x) + size <= rg[x.b][2])
MCNext ==
  \/ \E i \in Ids, loc \in Locs, t \in Addr \cup {-1} : New(i, loc, t, t) /\ Put(i, FromRaw(loc, t))
  \/ \E q \in DOMAIN c, i \in Ids, loc \in Locs : i # q /\ Copy(i, loc, q, Tgt(CopyOf(loc, c[q]))) /\ Put(i, CopyOf(loc, c[q]))
  \/ \E i \in DOMAIN c, q \in DOMAIN c : i # q /\ Assign(i, q, Tgt(CopyOf(c[i].loc, c[q]))) /\ Put(i, CopyOf(c[i].loc, c[q]))
  \/ \E i \in DOMAIN c, t \in Addr : AssignRaw(i, t, t) /\ Put(i, FromRaw(c[i].loc, t))
  \/ \E i \in DOMAIN c, d \in {-1, 1} : /\ c[i].off # Null /\ Tgt(c[i]) + d \in Addr
                                        /\ Move(i, Tgt(c[i]) + d, Tgt(c[i]) + d) /\ Put(i, [c[i] EXCEPT !.off = @ + d])
  \/ \E i \in DOMAIN c, q \in DOMAIN c :
        /\ i # q
        /\ LET l == IF OldSwap THEN FromRaw(c[i].loc, Tgt(c[q])) ELSE CopyOf(c[i].loc, CopyOf(0, c[q]))
               r == CopyOf(c[q].loc, c[i]) IN
           /\ Swap(i, q, Tgt(l), Tgt(r)) /\ c' = [c EXCEPT ![i] = l, ![q] = r]
  \* the bytes of region 1 appear in region 2
  \/ \E q \in DOMAIN c, i \in Ids : /\ i # q /\ At(c[q].loc) = 1 /\ (c[q].off # Null => Tgt(c[q]) + 6 \in Addr)
                                    /\ LET x == [c[q] EXCEPT !.loc = @ + 6] IN Remap(i, c[q].loc + 6, q, 6, Tgt(x)) /\ Put(i, x)
MCSpec == MCInit /\ [][MCNext]_<<vars, c>>
SameTarget == DOMAIN c = DOMAIN p /\ \A i \in DOMAIN c : c[i].loc = p[i].loc /\ Tgt(c[i]) = p[i].t
Decides == \A i \in DOMAIN c, size \in {1, 2} : Passes(c[i], size) = Allowed(p[i], 0, size)
\* a target inside the same region is reachable from everywhere, one outside the region of an in-region pointer from nowhere
Sound == \A i \in DOMAIN p : At(p[i].loc) # 0 /\ p[i].t # -1 => (Allowed(p[i], 0, 1) <=> At(p[i].t) = At(p[i].loc))
=============================================================================
