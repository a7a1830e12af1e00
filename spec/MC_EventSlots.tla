--------------------------- MODULE MC_EventSlots ---------------------------
(* Exhaustive exploration of EventSlots for small constants. *)
EXTENDS EventSlots
CONSTANTS NSlots, Lvls, Ctls, MaxTs, MaxSubs, AllowScribble, AllowCrash, AllowSub
Slots == 0..(NSlots - 1)

Init == Init0(Slots, Ctls, MaxSubs, TRUE, Lvls)

Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in DOMAIN f : i # j => f[i] # f[j]}

WordMove ==
  \/ \E l \in cfg.ctls, s \in cfg.slots :
       \/ prov.op = "alloc" /\ word[l][s].rc = 0 /\ (l = "QM" => ~cut) /\ (l = Primary => Reserved(Primary) = {})
            /\ (l # Primary => Reserved(l) = {} /\ Reserved(Primary) = {})
            /\ (l = Primary /\ Dual /\ Reserved("QM") # {} => s \in Reserved("QM")) /\ Reserve(l, s)
       \/ prov.op = "alloc" /\ Writing(word[l][s]) /\ \E i \in DOMAIN prov.res : prov.res[i].lvl = l /\ prov.res[i].slot = s /\ Unreserve(l, s, prov.res[i].pre)
       \/ prov.op = "pub" /\ prov.slot = s /\ Writing(word[l][s]) /\ (l = "QM" /\ Dual => ~cut) /\ Publish(l, s, [ts |-> prov.ts, rc |-> 0])
       \/ Writing(word[l][s]) /\ (prov.op = "restart" \/ (prov.op = "disc" /\ prov.slot = s)) /\ (l = "QM" /\ Dual => ~cut) /\ Clear(l, s)
  \/ \E c \in DOMAIN cons, s \in cfg.slots : LET w == word[cons[c].lvl][s] IN
       \/ cons[c].call.op = "get" /\ Ready(w) /\ w.ts > cons[c].last /\ Cardinality(cons[c].call.fl) < cons[c].call.max
            /\ (\A h \in cons[c].call.fl : w.ts < h.ts) /\ Ref(c, cons[c].lvl, s, [w EXCEPT !.rc = @ + 1])
       \/ cons[c].call.op \in {"rel", "recover"} /\ (\E h \in cons[c].held : h.slot = s) /\ w.rc >= 1 /\ Deref(c, cons[c].lvl, s, [w EXCEPT !.rc = @ - 1])
  \/ AllowSub /\ \E c \in DOMAIN cons : LET w == subw[cons[c].lvl] IN
       \/ cons[c].call.op = "sub" /\ SubWord(c, cons[c].lvl, [subs |-> w.subs + 1, slots |-> w.slots + cons[c].call.n])
       \/ cons[c].call.op = "unsub" /\ cons[c].sub > 0 /\ SubWord(c, cons[c].lvl, [subs |-> w.subs - 1, slots |-> w.slots - cons[c].sub])
       \/ cons[c].call.op = "recover" /\ cons[c].sub > 0 /\ SubWord(c, cons[c].lvl, [subs |-> w.subs - 1, slots |-> w.slots - cons[c].sub])
  \/ AllowScribble /\ ~stale /\ \E s \in cfg.slots : \E v \in {[ts |-> 0, rc |-> 0], [ts |-> 0, rc |-> -1], [ts |-> MaxTs, rc |-> 2]} : Scribble(s, v)

Interface ==
  \/ top < MaxTs /\ AllocCall
  \/ \E s \in cfg.slots \cup {-1}, c \in BOOLEAN : AllocRet(s, c)
  \/ \E s \in own : prov.op = "idle" /\ \E h \in {0, 1} : (h = 1 => data[s].lo = top + 1) /\ Fill(s, h, top + 1, TRUE)
  \/ \E s \in own : data[s].lo = data[s].hi /\ data[s].lo = top + 1 /\ PublishCall(s, top + 1)
  \/ PublishRet
  \/ \E s \in own : DiscardCall(s)
  \/ DiscardRet
  \/ AllowCrash /\ prov.op # "restart" /\ ProvCrash
  \/ RestartCall
  \/ prov.op = "restart" /\ RestartRet(SetMax({word[Primary][s].ts : s \in cfg.slots}))
  \/ \E c \in DOMAIN cons :
       \/ \E m \in 1..NSlots : (AllowSub => cons[c].sub > 0) /\ GetCall(c, m)
       \/ cons[c].call.op = "get" /\ LET S == {h.slot : h \in cons[c].call.fl} IN \E f \in Perms(S) : GetRet(c, f)
       \/ \E h \in cons[c].held : cons[c].alive /\ ReleaseCall(c, h.slot)
       \/ ReleaseRet(c)
       \/ AllowSub /\ cons[c].sub = 0 /\ \E n \in 1..NSlots : SubCall(c, n)
       \/ \E r \in {"ok", "subs", "slots"} : cons[c].call.op = "sub" /\ SubRet(c, r)
       \/ AllowSub /\ cons[c].sub > 0 /\ cons[c].held = {} /\ UnsubCall(c)
       \/ UnsubRet(c)
       \/ AllowCrash /\ ConsCrash(c)
       \/ RecoverCall(c)
       \/ cons[c].call.op = "recover" /\ RecoverRet(c, TRUE)
       \/ cons[c].call.op = "recover" /\ RecoverRet(c, FALSE)

Next == WordMove \/ Interface
Spec == Init /\ [][Next]_vars

\* last delivered number never goes back while subscribed
Monotone == [][\A c \in DOMAIN cons : cons'[c].last >= cons[c].last \/ cons[c].call.op = "unsub" \/ ~cons[c].alive]_vars
\* nothing the lower level does moves a word of the safety level, and the cut is permanent until a restart
CutStays == [][cut => cut' \/ prov'.op = "dead"]_vars
LvlsQB == ("c0" :> "QM") @@ ("c1" :> "B")
LvlsQQ == ("c0" :> "QM") @@ ("c1" :> "QM")
LvlsQ == ("c0" :> "QM")
LvlsB == ("c0" :> "B")
=============================================================================
