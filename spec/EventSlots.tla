----------------------------- MODULE EventSlots -----------------------------
(***************************************************************************)
(* One event of a provider as seen through shared memory: per integrity    *)
(* level ("QM", optionally "B") a control block with one status word per   *)
(* sample buffer and one subscription word; one buffer array shared by     *)
(* both levels; one provider; any number of consumers, each attached to    *)
(* one level.                                                              *)
(*                                                                         *)
(* The grain is one atomic change of a shared word, or the call/return of  *)
(* an operation of the provider's or consumer's interface.  What an        *)
(* operation may change, and what it must return, is stated by the guards  *)
(* of the actions below and nowhere else: any implementation whose every   *)
(* shared-word change and every call/return is one of these actions with   *)
(* its guards true is correct.                                             *)
(*                                                                         *)
(* A guard that belongs to a property is written R(ids, cond) and is only  *)
(* enforced if one of the ids is in Enforced (all of them when the         *)
(* specification itself is model checked; a single one when a recorded     *)
(* trace is checked for that property).  Post-states always follow the     *)
(* observed parameters so that a step that breaks a rule of another        *)
(* property can still be followed.                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Enforced, Diag   \* Diag: name the rule that fails (only when a single trace is checked)

VARIABLES
  cfg,    \* [slots: set, ctls: set of levels, maxsubs, enforce]: constant during a run
  word,   \* [level -> [slot -> [ts, rc]]]; rc = -1: being filled; ts = 0 /\ rc = 0: invalid
  subw,   \* [level -> [subs, slots]]
  data,   \* [slot -> [lo, hi]]: content of the buffer
  pub,    \* [slot -> [ts, val]]: what the provider last sent in this buffer
  prov,   \* the provider's current operation
  own,    \* slots handed to the provider's application for filling (allocated, neither sent nor discarded)
  top,    \* highest publication number ever used
  cut,    \* lower-integrity consumers were cut off by the current provider incarnation
  stale,  \* they were cut off at some time in the run, or their control block was corrupted: no guarantees left for them
  cons    \* [consumer -> record]

vars == <<cfg, word, subw, data, pub, prov, own, top, cut, stale, cons>>

R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE

Levels == {"QM", "B"}
Primary == IF "B" \in cfg.ctls THEN "B" ELSE "QM"
Dual == cfg.ctls = Levels
Writing(w) == w.rc = -1
Invalid(w) == w.rc = 0 /\ w.ts = 0
Ready(w) == w.rc >= 0 /\ w.ts > 0
Free(w) == w.rc = 0
FreeOn(l) == {s \in cfg.slots : Free(word[l][s])}
FreeAll == {s \in cfg.slots : \A l \in cfg.ctls : Free(word[l][s])}
Trusted(l) == l = "B" \/ ~stale            \* levels whose consumers still enjoy all guarantees
ActiveLevels == IF cut THEN cfg.ctls \ {"QM"} ELSE cfg.ctls
Max2(a, b) == IF a > b THEN a ELSE b
SetMax(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x

IdleProv == [op |-> "idle"]
IdleCons == [op |-> "idle"]
NewConsumer(l) == [lvl |-> l, alive |-> TRUE, dirty |-> FALSE, sub |-> 0, last |-> 0, held |-> {}, call |-> IdleCons]

Refs(c) == cons[c].held \cup (IF cons[c].call.op = "get" THEN cons[c].call.fl ELSE {})
HolderOf(l, s) == {c \in DOMAIN cons : cons[c].lvl = l /\ \E h \in Refs(c) : h.slot = s}

Init0(slots, ctls, maxsubs, enforce, lvls) ==
  /\ cfg = [slots |-> slots, ctls |-> ctls, maxsubs |-> maxsubs, enforce |-> enforce]
  /\ word = [l \in ctls |-> [s \in slots |-> [ts |-> 0, rc |-> 0]]]
  /\ subw = [l \in ctls |-> [subs |-> 0, slots |-> 0]]
  /\ data = [s \in slots |-> [lo |-> 0, hi |-> 0]]
  /\ pub = [s \in slots |-> [ts |-> 0, val |-> 0]]
  /\ prov = IdleProv
  /\ own = {}
  /\ top = 0
  /\ cut = FALSE
  /\ stale = FALSE
  /\ cons = [c \in DOMAIN lvls |-> NewConsumer(lvls[c])]

(***************************************************************************)
(* Bookkeeping of "what stayed so during the whole call" under a change of *)
(* word (l, s).                                                            *)
(***************************************************************************)
ProvAfter(p, l, s) ==
  IF p.op = "alloc"
  THEN [p EXCEPT !.mustAll = @ \ {s}, !.mustB = IF l = Primary THEN @ \ {s} ELSE @]
  ELSE p

\* consumer c's view of a change of word (l, s) from w to v made by somebody else (or itself)
ConsAfter(r, l, s, w, v) ==
  IF r.lvl # l \/ r.call.op \notin {"get", "num"} THEN r
  ELSE LET gone == v.ts # w.ts \/ v.rc < 0 \/ w.rc < 0
           newer == Ready(v) /\ v.ts > r.last
       IN [r EXCEPT !.call = [@ EXCEPT !.must = IF gone THEN @ \ {s} ELSE @,
                                       !.may = IF newer /\ gone THEN @ \cup {s} ELSE @]]
ConsAll(l, s, w, v) == [c \in DOMAIN cons |-> ConsAfter(cons[c], l, s, w, v)]

SetWord(l, s, v) == word' = [word EXCEPT ![l][s] = v]

(***************************************************************************)
(* Provider                                                                *)
(***************************************************************************)
AllocCall ==
  /\ prov.op = "idle"
  /\ prov' = [op |-> "alloc", mustB |-> FreeOn(Primary), mustAll |-> FreeAll, res |-> << >>, cut0 |-> cut]
  /\ UNCHANGED <<cfg, word, subw, data, pub, own, top, cut, stale, cons>>

\* The provider takes buffer s at level l for filling.
Reserve(l, s) ==
  LET w == word[l][s]
      v == [ts |-> 0, rc |-> -1] IN
  /\ R({"C03"}, prov.op = "alloc")
  /\ R({"C01", "C03"}, Trusted(l) => w.rc = 0)           \* neither held nor being filled
  /\ R({"C01"}, Trusted(l) => HolderOf(l, s) = {} /\ s \notin own)
  /\ R({"C04"}, (l = "QM" /\ Dual) => ~cut)
  /\ SetWord(l, s, v)
  /\ prov' = LET p == ProvAfter(prov, l, s) IN
             IF p.op = "alloc" THEN [p EXCEPT !.res = Append(@, [lvl |-> l, slot |-> s, pre |-> w])] ELSE p
  /\ cons' = ConsAll(l, s, w, v)
  /\ UNCHANGED <<cfg, subw, data, pub, own, top, cut, stale>>

\* It gives it back inside the same allocation (the other level refused): exactly as it was.
Unreserve(l, s, v) ==
  LET w == word[l][s] IN
  /\ R({"C03", "C02"}, prov.op = "alloc" /\ \E i \in DOMAIN prov.res : prov.res[i] = [lvl |-> l, slot |-> s, pre |-> v])
  /\ R({"C04"}, (l = "QM" /\ Dual) => ~cut)
  /\ SetWord(l, s, v)
  /\ prov' = LET p == ProvAfter(prov, l, s) IN
             IF p.op = "alloc" THEN [p EXCEPT !.res = SelectSeq(@, LAMBDA x : ~(x.lvl = l /\ x.slot = s))] ELSE p
  /\ cons' = ConsAll(l, s, w, v)
  /\ UNCHANGED <<cfg, subw, data, pub, own, top, cut, stale>>

Reserved(l) == IF prov.op = "alloc" THEN {prov.res[i].slot : i \in {j \in DOMAIN prov.res : prov.res[j].lvl = l}} ELSE {}
PreTs(s) == LET i == CHOOSE j \in DOMAIN prov.res : prov.res[j].lvl = Primary /\ prov.res[j].slot = s IN prov.res[i].pre.ts

\* s: the buffer obtained, or -1; c: lower level reported as cut off
AllocRet(s, c) ==
  /\ prov.op = "alloc"
  /\ R({"C04"}, (prov.cut0 => c) /\ (c => Dual))
  /\ R({"C04"}, (c /\ ~prov.cut0 /\ ~stale) => prov.mustAll = {})
  /\ R({"C04"}, (Dual /\ s = -1) => prov.mustB = {})
  /\ IF s = -1
     THEN /\ R({"C03", "C08"}, prov.mustB = {} \/ (Dual /\ ~c /\ prov.mustAll = {}))
          /\ R({"C03"}, \A i \in DOMAIN prov.res : Dual /\ c /\ prov.res[i].lvl = "QM")   \* nothing stays reserved
          /\ own' = own
     ELSE /\ R({"C03", "C01"}, s \in Reserved(Primary) /\ s \notin own)
          /\ R({"C03"}, Reserved(Primary) = {s} /\ ((Dual /\ ~c) => Reserved("QM") = {s}))
          /\ R({"C03"}, s \in Reserved(Primary) =>
                 \A t \in (IF c \/ ~Dual THEN prov.mustB ELSE prov.mustAll) : word[Primary][t].ts >= PreTs(s))
          /\ own' = own \cup {s}
  /\ cut' = c
  /\ stale' = (stale \/ c)
  /\ prov' = IdleProv
  /\ UNCHANGED <<cfg, word, subw, data, pub, top, cons>>

\* The application fills the buffer, one half at a time; hb: every access of earlier holders happens before it.
Fill(s, half, val, hb) ==
  /\ R({"C01"}, s \in own)
  /\ R({"C01"}, \A l \in cfg.ctls : Trusted(l) => HolderOf(l, s) = {})
  /\ R({"C01"}, hb \/ stale)
  /\ data' = [data EXCEPT ![s] = IF half = 0 THEN [@ EXCEPT !.lo = val] ELSE [@ EXCEPT !.hi = val]]
  /\ UNCHANGED <<cfg, word, subw, pub, prov, own, top, cut, stale, cons>>

PublishCall(s, ts) ==
  /\ prov.op = "idle"
  /\ R({"C08", "C02"}, ts > top)                            \* newer than everything before, also after a restart
  /\ prov' = [op |-> "pub", slot |-> s, ts |-> ts, done |-> {}]
  /\ top' = Max2(top, ts)
  /\ R({"C01"}, s \in own)
  /\ pub' = [pub EXCEPT ![s] = [ts |-> ts, val |-> data[s].lo]]
  /\ own' = own \ {s}                                       \* from here on it must not be touched any more
  /\ UNCHANGED <<cfg, word, subw, data, cut, stale, cons>>

Publish(l, s, v) ==
  LET w == word[l][s] IN
  /\ R({"C01", "C02"}, prov.op = "pub" /\ prov.slot = s /\ v = [ts |-> prov.ts, rc |-> 0])
  /\ R({"C01"}, Trusted(l) => Writing(w))
  /\ R({"C04"}, (l = "QM" /\ Dual) => ~cut)
  /\ SetWord(l, s, v)
  /\ prov' = IF prov.op = "pub" THEN [prov EXCEPT !.done = @ \cup {l}] ELSE prov
  /\ cons' = ConsAll(l, s, w, v)
  /\ UNCHANGED <<cfg, subw, data, pub, own, top, cut, stale>>

PublishRet ==
  /\ prov.op = "pub"
  /\ R({"C02"}, \A l \in ActiveLevels : Trusted(l) => l \in prov.done)
  /\ R({"C04"}, Dual => "B" \in prov.done)
  /\ prov' = IdleProv
  /\ UNCHANGED <<cfg, word, subw, data, pub, own, top, cut, stale, cons>>

DiscardCall(s) ==
  /\ prov.op = "idle"
  /\ prov' = [op |-> "disc", slot |-> s]
  /\ UNCHANGED <<cfg, word, subw, data, pub, own, top, cut, stale, cons>>

\* The provider marks buffer s unused at level l: a discarded one, or after a restart one left behind being filled.
Clear(l, s) ==
  LET w == word[l][s]
      v == [ts |-> 0, rc |-> 0] IN
  /\ R({"C01", "C03", "C08"}, Trusted(l) => /\ Writing(w)
                                           /\ \/ prov.op = "disc" /\ prov.slot = s /\ s \in own
                                              \/ prov.op = "restart")
  /\ R({"C04"}, (l = "QM" /\ Dual) => ~cut)
  /\ SetWord(l, s, v)
  /\ prov' = ProvAfter(prov, l, s)
  /\ cons' = ConsAll(l, s, w, v)
  /\ UNCHANGED <<cfg, subw, data, pub, own, top, cut, stale>>

DiscardRet ==
  /\ prov.op = "disc"
  /\ R({"C03"}, \A l \in ActiveLevels : Trusted(l) => ~(prov.slot \in own /\ Writing(word[l][prov.slot])))
  /\ own' = own \ {prov.slot}
  /\ prov' = IdleProv
  /\ UNCHANGED <<cfg, word, subw, data, pub, top, cut, stale, cons>>

ProvCrash ==
  /\ prov' = [op |-> "dead"]
  /\ cut' = FALSE                  \* the next incarnation starts afresh
  /\ UNCHANGED <<cfg, word, subw, data, pub, own, top, stale, cons>>

RestartCall ==
  /\ prov.op = "dead"
  /\ prov' = [op |-> "restart"]
  /\ UNCHANGED <<cfg, word, subw, data, pub, own, top, cut, stale, cons>>

\* ts: the publication number the new incarnation continues from
RestartRet(ts) ==
  /\ prov.op = "restart"
  /\ R({"C08"}, \A l \in cfg.ctls : \A s \in cfg.slots : ~Writing(word[l][s]))
  /\ R({"C08"}, stale \/ \A l \in cfg.ctls : \A s \in cfg.slots : word[l][s].ts <= ts)
  /\ R({"C08"}, \A s \in cfg.slots : word[Primary][s].ts <= ts)
  /\ prov' = IdleProv
  /\ own' = {}
  /\ top' = ts                     \* what nobody can see any more need not count
  /\ UNCHANGED <<cfg, word, subw, data, pub, cut, stale, cons>>

(***************************************************************************)
(* Consumers                                                               *)
(***************************************************************************)
UpdC(c, f) == cons' = [cons EXCEPT ![c] = f]

ReadyNew(c) == {s \in cfg.slots : Ready(word[cons[c].lvl][s]) /\ word[cons[c].lvl][s].ts > cons[c].last}

GetCall(c, max) ==
  /\ cons[c].alive /\ cons[c].call.op = "idle"
  /\ UpdC(c, [cons[c] EXCEPT !.call = [op |-> "get", max |-> max, fl |-> {}, must |-> ReadyNew(c), may |-> ReadyNew(c)]])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

\* Consumer c takes a hold on buffer s.
Ref(c, l, s, v) ==
  LET w == word[l][s]
      h == [slot |-> s, ts |-> w.ts, val |-> pub[s].val]
      all == ConsAll(l, s, w, v) IN
  /\ R({"C01", "C03"}, cons[c].alive /\ cons[c].call.op = "get" /\ cons[c].lvl = l)
  /\ R({"C01"}, Ready(w) /\ (Trusted(l) => w.ts = pub[s].ts))
  /\ R({"C01", "C03"}, v = [w EXCEPT !.rc = @ + 1])
  /\ SetWord(l, s, v)
  /\ prov' = ProvAfter(prov, l, s)
  /\ cons' = [all EXCEPT ![c] = IF @.call.op = "get" THEN [@ EXCEPT !.call.fl = @ \cup {h}] ELSE @]
  /\ UNCHANGED <<cfg, subw, data, pub, own, top, cut, stale>>

\* res: sequence of buffers in the order delivered
GetRet(c, res) ==
  LET r == cons[c]
      fl == r.call.fl
      flslots == {h.slot : h \in fl}
      TsOf(s) == IF s \in flslots THEN (CHOOSE h \in fl : h.slot = s).ts ELSE 0
      n == Len(res)
      got == {res[i] : i \in 1..n} IN
  /\ r.alive /\ r.call.op = "get"
  /\ R({"C03"}, flslots = got /\ Cardinality(fl) = Cardinality(got))        \* nothing held that is not delivered
  /\ R({"C01", "C02"}, got \subseteq flslots)
  /\ R({"C02"}, n <= r.call.max)
  /\ R({"C02"}, \A i \in 1..n : TsOf(res[i]) > r.last)
  /\ R({"C02"}, \A i \in 1..(n - 1) : TsOf(res[i]) < TsOf(res[i + 1]))
  /\ R({"C02"}, Trusted(r.lvl) =>
        \A s \in r.call.must \ got : n = r.call.max /\ (n > 0 => word[r.lvl][s].ts < TsOf(res[1])))
  /\ R({"C04"}, (Dual /\ r.lvl = "B") => (r.call.must \ got = {} \/ n = r.call.max))
  /\ UpdC(c, [r EXCEPT !.call = IdleCons, !.held = @ \cup fl,
                       !.last = IF n = 0 THEN @ ELSE Max2(@, SetMax({TsOf(s) : s \in got}))])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

\* The application reads a held sample.  hb: the provider's writes happen before this read
Read(c, s, lo, hi, hb) ==
  LET hs == {h \in cons[c].held : h.slot = s} IN
  /\ R({"C01"}, Trusted(cons[c].lvl) =>
        /\ hb
        /\ \E h \in hs : lo = h.val /\ hi = h.val)
  /\ R({"C04", "C08"}, (cons[c].lvl = "B" \/ ~stale) => \E h \in hs : lo = h.val /\ hi = h.val)
  /\ UNCHANGED vars

ReleaseCall(c, s) ==
  /\ cons[c].alive /\ cons[c].call.op = "idle"
  /\ UpdC(c, [cons[c] EXCEPT !.call = [op |-> "rel", slot |-> s, n |-> 0]])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

\* One hold of consumer c on s is given up, by itself or by the recovery on its behalf.
Deref(c, l, s, v) ==
  LET w == word[l][s]
      r == cons[c]
      all == ConsAll(l, s, w, v) IN
  /\ R({"C03", "C01"}, r.alive => r.call.op = "rel" /\ r.call.slot = s /\ r.call.n = 0)
  /\ R({"C05"}, ~r.alive => r.call.op = "recover")
  /\ R({"C03", "C01", "C05"}, r.lvl = l /\ \E h \in r.held : h.slot = s)
  /\ R({"C03", "C01", "C05"}, Trusted(l) => v = [w EXCEPT !.rc = @ - 1] /\ w.rc >= 1)
  /\ SetWord(l, s, v)
  /\ prov' = ProvAfter(prov, l, s)
  /\ cons' = [all EXCEPT ![c] = [@ EXCEPT !.held = {h \in @ : h.slot # s},
                                          !.call = IF @.op = "rel" THEN [@ EXCEPT !.n = @ + 1] ELSE @]]
  /\ UNCHANGED <<cfg, subw, data, pub, own, top, cut, stale>>

ReleaseRet(c) ==
  /\ cons[c].alive /\ cons[c].call.op = "rel"
  /\ R({"C03"}, cons[c].call.n = 1)
  /\ UpdC(c, [cons[c] EXCEPT !.call = IdleCons])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

NumCall(c) ==
  /\ cons[c].alive /\ cons[c].call.op = "idle"
  /\ UpdC(c, [cons[c] EXCEPT !.call = [op |-> "num", must |-> ReadyNew(c), may |-> ReadyNew(c)]])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

NumRet(c, n) ==
  /\ cons[c].alive /\ cons[c].call.op = "num"
  /\ R({"C02"}, Trusted(cons[c].lvl) => Cardinality(cons[c].call.must) <= n /\ n <= Cardinality(cons[c].call.may))
  /\ UpdC(c, [cons[c] EXCEPT !.call = IdleCons])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

(***************************************************************************)
(* Subscription word                                                       *)
(***************************************************************************)
\* consumers of level l that hold, or are about to take or give back, a place among the subscribers
BusyOn(l) == {c \in DOMAIN cons : cons[c].lvl = l /\ (cons[c].sub > 0 \/ ~cons[c].alive \/ cons[c].call.op \in {"sub", "unsub"})}

Seen(r, l, v) ==  \* running maxima of the subscription word and number of changes during a subscribe call
  IF r.lvl = l /\ r.call.op \in {"sub", "unsub"}
  THEN [r EXCEPT !.call.maxsubs = Max2(@, v.subs), !.call.maxslots = Max2(@, v.slots), !.call.chg = IF @ < 2 * cfg.maxsubs THEN @ + 1 ELSE @]
  ELSE r

SubCall(c, n) ==
  /\ cons[c].alive /\ cons[c].call.op = "idle"
  /\ cons' = [x \in DOMAIN cons |->
       IF x # c THEN IF cons[x].call.op = "sub" /\ cons[x].lvl = cons[c].lvl THEN [cons[x] EXCEPT !.call.busy = @ \cup {c}] ELSE cons[x]
       ELSE [cons[c] EXCEPT !.call = [op |-> "sub", n |-> n, done |-> 0, chg |-> 0,
                 busy |-> BusyOn(cons[c].lvl) \ {c},
                 maxsubs |-> subw[cons[c].lvl].subs, maxslots |-> subw[cons[c].lvl].slots]]]
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

UnsubCall(c) ==
  /\ cons[c].alive /\ cons[c].call.op = "idle"
  /\ UpdC(c, [cons[c] EXCEPT !.call = [op |-> "unsub", n |-> cons[c].sub, done |-> 0, chg |-> 0,
                 maxsubs |-> subw[cons[c].lvl].subs, maxslots |-> subw[cons[c].lvl].slots]])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

\* subscription word of level l becomes v, changed by consumer c or its recovery
SubWord(c, l, v) ==
  LET r == cons[c]
      w == subw[l]
      n == IF r.call.op \in {"sub", "unsub"} THEN r.call.n ELSE r.sub
      taken == [subs |-> w.subs + 1, slots |-> w.slots + n]
      given == [subs |-> w.subs - 1, slots |-> w.slots - n]
      upd == IF r.call.op \in {"sub", "unsub"}
             THEN [r EXCEPT !.call.done = @ + 1, !.sub = IF r.call.op = "sub" THEN n ELSE 0]
             ELSE [r EXCEPT !.sub = 0] IN
  /\ R({"C07"}, r.lvl = l /\ r.alive => \/ r.call.op = "sub" /\ r.call.done = 0 /\ v = taken
                                        \/ r.call.op = "unsub" /\ r.call.done = 0 /\ v = given)
  /\ R({"C07"}, r.call.op = "sub" => v.subs <= cfg.maxsubs /\ (cfg.enforce => v.slots <= Cardinality(cfg.slots)))
  /\ R({"C05"}, ~r.alive => r.call.op = "recover" /\ r.sub > 0 /\ r.lvl = l /\ v = given)
  /\ subw' = [subw EXCEPT ![l] = v]
  /\ cons' = [x \in DOMAIN cons |-> IF x = c THEN upd ELSE Seen(cons[x], l, v)]
  /\ UNCHANGED <<cfg, word, data, pub, prov, own, top, cut, stale>>

\* res: "ok", "subs" (too many subscribers), "slots" (too many samples), "retry" (gave up because of contention)
SubRet(c, res) ==
  LET r == cons[c] IN
  /\ r.alive /\ r.call.op = "sub"
  /\ R({"C07"}, (res = "ok") = (r.call.done = 1))
  /\ R({"C07"}, res = "subs" => r.call.maxsubs >= cfg.maxsubs \/ Cardinality(r.call.busy) >= cfg.maxsubs)
  /\ R({"C07"}, res = "slots" => cfg.enforce /\ r.call.maxslots + r.call.n > Cardinality(cfg.slots))
  /\ R({"C07"}, res = "retry" => r.call.chg >= 2 * cfg.maxsubs)
  /\ R({"C07"}, res \in {"ok", "subs", "slots", "retry"})
  /\ UpdC(c, [r EXCEPT !.call = IdleCons])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

UnsubRet(c) ==
  LET r == cons[c] IN
  /\ r.alive /\ r.call.op = "unsub"
  /\ R({"C07"}, r.call.done = 1)
  /\ UpdC(c, [r EXCEPT !.call = IdleCons, !.last = 0])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

(***************************************************************************)
(* Consumer crash and recovery                                             *)
(***************************************************************************)
ConsCrash(c) ==
  /\ cons[c].alive
  /\ UpdC(c, [cons[c] EXCEPT !.alive = FALSE,
                             !.dirty = cons[c].call.op \notin {"idle", "num"},
                             !.held = Refs(c),
                             !.call = IdleCons])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

RecoverCall(c) ==
  /\ ~cons[c].alive /\ cons[c].call.op = "idle"
  /\ UpdC(c, [cons[c] EXCEPT !.call = [op |-> "recover"]])
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

RecoverRet(c, ok) ==
  LET r == cons[c] IN
  /\ ~r.alive /\ r.call.op = "recover"
  /\ R({"C05"}, ok => r.held = {} /\ r.sub = 0)        \* everything was given back ...
  /\ R({"C05"}, ~ok => r.dirty)                        \* ... unless the crash was in the middle of something
  /\ IF ok
     THEN UpdC(c, NewConsumer(r.lvl))
     ELSE UpdC(c, [r EXCEPT !.call = IdleCons])          \* what is not given back stays taken
  /\ UNCHANGED <<cfg, word, subw, data, pub, prov, own, top, cut, stale>>

(***************************************************************************)
(* Environment: a faulty lower-integrity process scribbles over its own    *)
(* control block.                                                          *)
(***************************************************************************)
Scribble(s, v) ==
  LET w == word["QM"][s] IN
  /\ Dual
  /\ SetWord("QM", s, v)
  /\ stale' = TRUE
  /\ prov' = ProvAfter(prov, "QM", s)
  /\ cons' = ConsAll("QM", s, w, v)
  /\ UNCHANGED <<cfg, subw, data, pub, own, top, cut>>

(***************************************************************************)
(* State properties                                                        *)
(***************************************************************************)
TypeOK ==
  /\ \A l \in cfg.ctls : \A s \in cfg.slots : word[l][s].rc >= -1 /\ word[l][s].ts >= 0
  /\ own \subseteq cfg.slots

\* C01: a held buffer is neither being filled nor republished, and its content is what was sent
HeldIntact ==
  \A c \in DOMAIN cons : Trusted(cons[c].lvl) =>
    \A h \in Refs(c) :
      /\ word[cons[c].lvl][h.slot].ts = h.ts /\ word[cons[c].lvl][h.slot].rc >= 1
      /\ data[h.slot] = [lo |-> h.val, hi |-> h.val]
      /\ h.slot \notin own

\* C03/C05: the reference count of a buffer is exactly the number of holders
CountsExact ==
  \A l \in cfg.ctls : Trusted(l) => \A s \in cfg.slots :
    ~Writing(word[l][s]) => word[l][s].rc = Cardinality(HolderOf(l, s))

\* C03: being-filled buffers are exactly those the provider works on
WritingOwned ==
  prov.op \in {"idle", "pub", "disc"} =>
    \A l \in cfg.ctls : Trusted(l) => \A s \in cfg.slots :
      Writing(word[l][s]) => s \in own \/ (prov.op = "pub" /\ prov.slot = s)

\* C07
SubsWithinLimits ==
  \A l \in cfg.ctls : /\ subw[l].subs <= cfg.maxsubs
                      /\ cfg.enforce => subw[l].slots <= Cardinality(cfg.slots)
RECURSIVE SumSub(_)
SumSub(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN cons[x].sub + SumSub(S \ {x})
SubsExact ==
  \A l \in cfg.ctls : /\ subw[l].subs >= Cardinality({c \in DOMAIN cons : cons[c].lvl = l /\ cons[c].sub > 0})
                      /\ subw[l].slots >= SumSub({c \in DOMAIN cons : cons[c].lvl = l})

\* C02: no two visible buffers carry the same publication number at one level, none is newer than the newest sent
StampsDistinct ==
  \A l \in cfg.ctls : Trusted(l) => \A s, t \in cfg.slots :
     (s # t /\ word[l][s].ts > 0) => word[l][s].ts # word[l][t].ts
\* C04: the safety level never sees more of the lower level than its own words
BOnlyNewest == \A s \in cfg.slots : word[Primary][s].ts <= top \/ prov.op \in {"dead", "restart"}
=============================================================================
