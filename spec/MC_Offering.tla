----------------------------- MODULE MC_Offering -----------------------------
(* The protocol over marker files (opened, locked, unlinked one step at a time; a lock belongs to the file, not to its name) *)
(* and two shared objects follows Offering, whatever step a provider or consumer crashes in.                                 *)
EXTENDS Offering
CONSTANTS Provs, Conss, MaxTake, MaxOffer, MaxOpen, MaxCrash, Strict,
          Mode     \* "ok"; wrong: "notake", "nolock", "recreate", "reuse", "keep", "noclean", "stale"
VARIABLES ex, us, nfile, exl, ush, usx, obj, born, pc, fd, n, ok
mcvars == <<vars, ex, us, nfile, exl, ush, usx, obj, born, pc, fd, n, ok>>
S == INSTANCE Offering WITH Enforced <- {"L03"}
\* ex, us: file under the name (0 none); exl: [file -> provider]; ush: [file -> consumers]; usx: [file -> provider]
\* obj: [ctl, data] objects under their names; n: what was done so far
Files == 1..(MaxTake + MaxOffer)
Who == Provs \cup Conss
Init ==
        /\ num = 2 /\ prov = << >> /\ cons = << >> /\ call = NoCall /\ seen = {} /\ sets = {}
        /\ lock = [strict |-> Strict, stale |-> FALSE, torn |-> FALSE, lost |-> FALSE] /\ cur = [objs |-> {}, whole |-> FALSE]
        /\ ex = 0 /\ us = 0 /\ nfile = 0 /\ exl = [f \in Files |-> 0] /\ ush = [f \in Files |-> {}] /\ usx = [f \in Files |-> 0]
        /\ obj = [ctl |-> 0, data |-> 0, dirty |-> FALSE] /\ born = 0 /\ pc = [w \in Who |-> "out"] /\ fd = [w \in Who |-> [e |-> 0, u |-> 0, c |-> 0, d |-> 0]]
        /\ n = [take |-> 0, offer |-> 0, open |-> 0, crash |-> 0] /\ ok = TRUE
To(w, l) == pc' = [pc EXCEPT ![w] = l]
Quiet == UNCHANGED vars /\ UNCHANGED ok
Named == {obj.ctl, obj.data} \ {0}
Seq2(a, b) == IF a = 0 THEN (IF b = 0 THEN << >> ELSE <<b>>) ELSE IF b = 0 THEN <<a>> ELSE <<a, b>>
NamedS == Seq2(obj.ctl, obj.data)
F == UNCHANGED <<ex, us, nfile, exl, ush, usx>>
O == UNCHANGED <<obj, born>>
N == UNCHANGED n
---- \* providers
T0(p) == pc[p] = "out" /\ n.take < MaxTake /\ TakeCall(p) /\ ok' = (ok /\ S!TakeCall(p)) /\ n' = [n EXCEPT !.take = @ + 1] /\ To(p, "t1") /\ F /\ O /\ UNCHANGED fd
T1(p) == /\ pc[p] = "t1" /\ To(p, "t2") /\ Quiet /\ O /\ N /\ UNCHANGED <<us, exl, ush, usx>>
         /\ IF ex = 0 THEN ex' = nfile + 1 /\ nfile' = nfile + 1 /\ fd' = [fd EXCEPT ![p].e = nfile + 1]
            ELSE UNCHANGED <<ex, nfile>> /\ fd' = [fd EXCEPT ![p].e = ex]
T2(p) == /\ pc[p] = "t2" /\ O /\ N /\ UNCHANGED <<ex, us, nfile, ush, usx, fd>>
         /\ LET free == exl[fd[p].e] = 0 \/ Mode = "notake" IN
            /\ exl' = (IF free THEN [exl EXCEPT ![fd[p].e] = p] ELSE exl) /\ To(p, IF free THEN "in" ELSE "out")
            /\ TakeRet(p, free) /\ ok' = (ok /\ S!TakeRet(p, free))
O0(p) == pc[p] = "in" /\ n.offer < MaxOffer /\ OfferCall(p) /\ ok' = (ok /\ S!OfferCall(p)) /\ n' = [n EXCEPT !.offer = @ + 1] /\ To(p, "o1") /\ F /\ O /\ UNCHANGED fd
O1(p) == /\ pc[p] = "o1" /\ To(p, "o2") /\ Quiet /\ O /\ N /\ UNCHANGED <<ex, exl, ush, usx>>
         /\ IF us = 0 THEN us' = nfile + 1 /\ nfile' = nfile + 1 /\ fd' = [fd EXCEPT ![p].u = nfile + 1]
            ELSE UNCHANGED <<us, nfile>> /\ fd' = [fd EXCEPT ![p].u = us]
O2(p) == /\ pc[p] = "o2" /\ Quiet /\ O /\ N /\ UNCHANGED <<ex, us, nfile, exl, ush, fd>>
         /\ LET free == ush[fd[p].u] = {} IN
            /\ usx' = (IF free THEN [usx EXCEPT ![fd[p].u] = p] ELSE usx)
            /\ To(p, IF (free \/ Mode = "recreate") /\ ~(Mode = "reuse" /\ obj.ctl # 0) THEN "o3" ELSE "r3")
O3(p) == pc[p] = "o3" /\ obj' = (IF Mode = "stale" THEN obj ELSE [ctl |-> 0, data |-> 0, dirty |-> FALSE]) /\ To(p, "o4") /\ Quiet /\ F /\ N /\ UNCHANGED <<born, fd>>
O4(p) == /\ pc[p] = "o4" /\ To(p, "o5") /\ Quiet /\ F /\ N
         /\ IF obj.ctl = 0 THEN obj' = [obj EXCEPT !.ctl = born + 1] /\ born' = born + 1 /\ fd' = [fd EXCEPT ![p].c = born + 1] ELSE O /\ fd' = [fd EXCEPT ![p].c = obj.ctl]
O5(p) == /\ pc[p] = "o5" /\ To(p, "o6") /\ Quiet /\ F /\ N
         /\ IF obj.data = 0 THEN obj' = [obj EXCEPT !.data = born + 1] /\ born' = born + 1 /\ fd' = [fd EXCEPT ![p].d = born + 1] ELSE O /\ fd' = [fd EXCEPT ![p].d = obj.data]
R3(p) == pc[p] = "r3" /\ (IF obj.ctl = 0 THEN To(p, "fail") ELSE To(p, "r4")) /\ fd' = [fd EXCEPT ![p].c = obj.ctl] /\ Quiet /\ F /\ O /\ N
R4(p) == pc[p] = "r4" /\ (IF obj.data = 0 THEN To(p, "fail") ELSE To(p, "r5")) /\ fd' = [fd EXCEPT ![p].d = obj.data] /\ Quiet /\ F /\ O /\ N
R5(p) == pc[p] = "r5" /\ To(p, "o6") /\ obj' = [obj EXCEPT !.dirty = IF Mode = "noclean" THEN @ ELSE FALSE] /\ Quiet /\ F /\ N /\ UNCHANGED <<born, fd>>
OEnd(p) == /\ pc[p] \in {"o6", "fail"} /\ O /\ N /\ UNCHANGED <<ex, us, nfile, exl, ush, fd>>
           /\ usx' = [f \in Files |-> IF usx[f] = p THEN 0 ELSE usx[f]]
           /\ LET y == pc[p] = "o6" IN
              /\ OfferRet(p, y, NamedS, Seq2(fd[p].c, fd[p].d), ~obj.dirty) /\ ok' = (ok /\ S!OfferRet(p, y, NamedS, Seq2(fd[p].c, fd[p].d), ~obj.dirty))
              /\ To(p, IF y THEN "offered" ELSE "in")
\* a sample is being written
W(p) == pc[p] = "offered" /\ ~obj.dirty /\ obj' = [obj EXCEPT !.dirty = TRUE] /\ UNCHANGED <<born, fd, pc>> /\ Quiet /\ F /\ N
S0(p) == pc[p] = "offered" /\ StopCall(p) /\ ok' = (ok /\ S!StopCall(p)) /\ To(p, "s1") /\ obj' = [obj EXCEPT !.dirty = FALSE] /\ F /\ N /\ UNCHANGED <<born, fd>>
S1(p) == /\ pc[p] = "s1" /\ Quiet /\ O /\ N /\ UNCHANGED <<ex, us, nfile, exl, ush, fd>>
         /\ LET free == ush[fd[p].u] = {} IN
            /\ usx' = (IF free THEN [usx EXCEPT ![fd[p].u] = p] ELSE usx)
            /\ To(p, IF free /\ Mode # "keep" THEN "s2" ELSE "s6")
S2(p) == pc[p] = "s2" /\ obj' = [obj EXCEPT !.ctl = 0] /\ To(p, "s3") /\ Quiet /\ F /\ N /\ UNCHANGED <<born, fd>>
S3(p) == pc[p] = "s3" /\ obj' = [obj EXCEPT !.data = 0] /\ To(p, "s4") /\ Quiet /\ F /\ N /\ UNCHANGED <<born, fd>>
S4(p) == pc[p] = "s4" /\ usx' = [usx EXCEPT ![fd[p].u] = 0] /\ To(p, "s5") /\ Quiet /\ O /\ N /\ UNCHANGED <<ex, us, nfile, exl, ush, fd>>
S5(p) == pc[p] = "s5" /\ us' = 0 /\ To(p, "s6") /\ Quiet /\ O /\ N /\ UNCHANGED <<ex, nfile, exl, ush, usx, fd>>
S6(p) == /\ pc[p] = "s6" /\ StopRet(p, NamedS) /\ ok' = (ok /\ S!StopRet(p, NamedS)) /\ To(p, "in") /\ O /\ N /\ UNCHANGED <<ex, us, nfile, exl, ush, fd>>
         /\ usx' = [f \in Files |-> IF usx[f] = p THEN 0 ELSE usx[f]]
D0(p) == pc[p] = "in" /\ LeaveCall(p) /\ ok' = (ok /\ S!LeaveCall(p)) /\ To(p, "d1") /\ F /\ O /\ N /\ UNCHANGED fd
D1(p) == pc[p] = "d1" /\ exl' = [f \in Files |-> IF exl[f] = p THEN 0 ELSE exl[f]] /\ To(p, "d2") /\ Quiet /\ O /\ N /\ UNCHANGED <<ex, us, nfile, ush, usx, fd>>
D2(p) == pc[p] = "d2" /\ ex' = 0 /\ To(p, "d3") /\ Quiet /\ O /\ N /\ UNCHANGED <<us, nfile, exl, ush, usx, fd>>
D3(p) == pc[p] = "d3" /\ LeaveRet(p) /\ ok' = (ok /\ S!LeaveRet(p)) /\ To(p, "out") /\ F /\ O /\ N /\ UNCHANGED fd
Gone(w) == /\ exl' = [f \in Files |-> IF exl[f] = w THEN 0 ELSE exl[f]] /\ usx' = [f \in Files |-> IF usx[f] = w THEN 0 ELSE usx[f]]
           /\ ush' = [f \in Files |-> ush[f] \ {w}] /\ UNCHANGED <<ex, us, nfile>>
CrashP(p) == /\ pc[p] # "out" /\ n.crash < MaxCrash /\ n' = [n EXCEPT !.crash = @ + 1] /\ To(p, "out") /\ Gone(p) /\ O /\ UNCHANGED fd
             /\ KillProvider(p, NamedS, FALSE) /\ ok' = (ok /\ S!KillProvider(p, NamedS, FALSE))
---- \* consumers
P0(c) == pc[c] = "out" /\ n.open < MaxOpen /\ OpenCall(c) /\ ok' = (ok /\ S!OpenCall(c)) /\ n' = [n EXCEPT !.open = @ + 1] /\ To(c, "p1") /\ F /\ O /\ UNCHANGED fd
P1(c) == pc[c] = "p1" /\ To(c, IF us = 0 THEN "pf" ELSE "p2") /\ fd' = [fd EXCEPT ![c].u = us] /\ Quiet /\ F /\ O /\ N
P2(c) == /\ pc[c] = "p2" /\ Quiet /\ O /\ N /\ UNCHANGED <<ex, us, nfile, exl, usx, fd>>
         /\ IF usx[fd[c].u] = 0 THEN ush' = (IF Mode = "nolock" THEN ush ELSE [ush EXCEPT ![fd[c].u] = @ \cup {c}]) /\ To(c, "p3") ELSE UNCHANGED ush /\ To(c, "pf")
P3(c) == pc[c] = "p3" /\ To(c, IF obj.ctl = 0 THEN "pf" ELSE "p4") /\ fd' = [fd EXCEPT ![c].c = obj.ctl] /\ Quiet /\ F /\ O /\ N
P4(c) == pc[c] = "p4" /\ To(c, IF obj.data = 0 THEN "pf" ELSE "p5") /\ fd' = [fd EXCEPT ![c].d = obj.data] /\ Quiet /\ F /\ O /\ N
PEnd(c) == /\ pc[c] \in {"p5", "pf"} /\ O /\ N /\ UNCHANGED <<ex, us, nfile, exl, usx, fd>>
           /\ LET y == pc[c] = "p5" IN
              /\ ush' = (IF y THEN ush ELSE [f \in Files |-> ush[f] \ {c}])
              /\ OpenRet(c, y, IF y THEN <<fd[c].c, fd[c].d>> ELSE << >>) /\ ok' = (ok /\ S!OpenRet(c, y, IF y THEN <<fd[c].c, fd[c].d>> ELSE << >>))
              /\ To(c, IF y THEN "cin" ELSE "out")
X0(c) == pc[c] = "cin" /\ CloseCall(c) /\ ok' = (ok /\ S!CloseCall(c)) /\ To(c, "x1") /\ F /\ O /\ N /\ UNCHANGED fd
X1(c) == pc[c] = "x1" /\ ush' = [f \in Files |-> ush[f] \ {c}] /\ To(c, "x2") /\ Quiet /\ O /\ N /\ UNCHANGED <<ex, us, nfile, exl, usx, fd>>
X2(c) == pc[c] = "x2" /\ CloseRet(c) /\ ok' = (ok /\ S!CloseRet(c)) /\ To(c, "out") /\ F /\ O /\ N /\ UNCHANGED fd
CrashC(c) == /\ pc[c] # "out" /\ n.crash < MaxCrash /\ n' = [n EXCEPT !.crash = @ + 1] /\ To(c, "out") /\ Gone(c) /\ O /\ UNCHANGED fd
             /\ KillConsumer(c, FALSE) /\ ok' = (ok /\ S!KillConsumer(c, FALSE))
Next == \/ \E p \in Provs : T0(p) \/ T1(p) \/ T2(p) \/ O0(p) \/ O1(p) \/ O2(p) \/ O3(p) \/ O4(p) \/ O5(p) \/ R3(p) \/ R4(p) \/ R5(p) \/ OEnd(p) \/ W(p)
                            \/ S0(p) \/ S1(p) \/ S2(p) \/ S3(p) \/ S4(p) \/ S5(p) \/ S6(p) \/ D0(p) \/ D1(p) \/ D2(p) \/ D3(p) \/ CrashP(p)
        \/ \E c \in Conss : P0(c) \/ P1(c) \/ P2(c) \/ P3(c) \/ P4(c) \/ PEnd(c) \/ X0(c) \/ X1(c) \/ X2(c) \/ CrashC(c)
Spec == Init /\ [][Next /\ ~lock.lost]_mcvars
Follows == ok
OneProvider == ~lock.torn => Cardinality({p \in Provs : pc[p] \notin {"out", "t1", "t2", "d1", "d2", "d3"}}) <= 1
InUseStays == \A c \in Conss : pc[c] = "cin" /\ ~cons[c].loose => {fd[c].c, fd[c].d} \subseteq Named
=============================================================================
