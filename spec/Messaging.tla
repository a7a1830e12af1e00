------------------------------ MODULE Messaging ------------------------------
(***************************************************************************)
(* Client connections and a server that exchange messages over sockets.    *)
(* A connection attempt has a number x; messages, requests and their       *)
(* replies have a number m, notifications a number n.  Times are counted   *)
(* in steps (now).  Rules of M01: delivery and completion; M02: lifecycle; *)
(* M03: unchanged contents, misbehaving peers.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enforced, Diag
VARIABLES
  now,
  cl,    \* [client -> record]
  cn,    \* [connection -> record]
  ms,    \* [message -> record]
  nt,    \* [notification -> record]
  lis,   \* a server is listening: 0 no, 1 yes, 2 it is about to end
  lisat  \* since when it is (not)
vars == <<now, cl, cn, ms, nt, lis, lisat>>
R(ids, cond) == IF ids \cap Enforced = {} THEN TRUE
                ELSE IF cond THEN TRUE
                ELSE Diag /\ PrintT(<<"RULE", ids \cap Enforced>>) /\ FALSE
With(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
Init0 == now = 0 /\ cl = << >> /\ cn = << >> /\ ms = << >> /\ nt = << >> /\ lis = 0 /\ lisat = 0
Tick == now' = now + 1
Starting == 0  Ready == 1  Stopping == 2  Stopped == 3
NewClient(cap, ord, sync, raw) ==
  [cap |-> cap, ord |-> ord, sync |-> sync, raw |-> raw, told |-> {}, started |-> FALSE, starting |-> 0, inc |-> 0, running |-> << >>,
   stopreq |-> FALSE, stops |-> 0, must |-> FALSE, delc |-> FALSE, deld |-> FALSE, x |-> 0, endat |-> 0, startat |-> 0, bad |-> FALSE, tries |-> 0, res |-> "", tat |-> 0]
Cfg(c, cap, ord, sync, raw) == Tick /\ cl' = With(cl, c, NewClient(cap, ord, sync, raw)) /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
Known(c) == c \in DOMAIN cl
Live(c) == Known(c) /\ ~cl[c].deld
InState(c, s) == s \in cl[c].told
AtRest(c) == ~cl[c].raw /\ (cl[c].told = {} \/ InState(c, Stopped))      \* never started, or said to have stopped
\* connection x of the current incarnation (0: none)
X(c) == cl[c].x
\* something happened that may end the connection of client c
Cause(c) == \/ cl[c].stopreq \/ cl[c].delc
            \/ X(c) # 0 /\ (cn[X(c)].shutS \/ cn[X(c)].badS \/ cn[X(c)].rfault)
            \/ cl[c].res \in {"perm", "io"}
\* ---------------------------------------------------------------- lifecycle
Start(c, re) ==
  /\ Tick /\ Live(c)
  /\ cl' = [cl EXCEPT ![c].starting = @ + 1, ![c].started = TRUE]
  /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
StartRet(c) == Tick /\ Known(c) /\ cl' = [cl EXCEPT ![c].starting = @ - 1] /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
Stop(c) == Tick /\ Known(c) /\ cl' = [cl EXCEPT ![c].stopreq = TRUE, ![c].stops = @ + 1] /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
\* a call that began and ended within one life of the connection ends it
StopRet(c, inc) ==
  /\ Tick /\ Known(c)
  /\ cl' = [cl EXCEPT ![c].stops = @ - 1, ![c].must = @ \/ (inc = cl[c].inc /\ ~AtRest(c))]
  /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
Reason(c, s, why) ==
  IF s \in {Starting, Ready} THEN s = Ready => (why = 0 \/ why = 2)
  ELSE CASE why = 2 -> cl[c].stopreq \/ cl[c].delc
         [] why = 3 -> cl[c].res = "perm"
         [] why = 4 -> X(c) # 0 /\ cn[X(c)].shutS
         [] why = 5 -> cl[c].res = "io" \/ (X(c) # 0 /\ (cn[X(c)].shutS \/ cn[X(c)].badS \/ cn[X(c)].rfault))
         [] OTHER -> FALSE
Running(c, s) == \E j \in DOMAIN cl[c].running : cl[c].running[j] = s
StateCb(c, s, why, en) ==
  /\ Tick /\ Known(c)
  /\ R({"M02"}, ~cl[c].deld)
  /\ R({"M02"}, Reason(c, s, why))
  /\ R({"M02"}, CASE s = Starting -> cl[c].starting > 0 /\ AtRest(c)
                  [] s = Ready -> /\ InState(c, Starting) /\ ~InState(c, Ready) /\ ~InState(c, Stopped)
                                  /\ (InState(c, Stopping) => cl[c].stopreq \/ cl[c].delc)
                                  /\ ~Running(c, Starting) /\ cl[c].res = "ok"
                  [] s = Stopping -> /\ InState(c, Starting) /\ ~InState(c, Stopping) /\ ~InState(c, Stopped)
                                     /\ (cl[c].stopreq \/ cl[c].delc \/ ~(Running(c, Starting) \/ Running(c, Ready)))
                                     /\ Cause(c)
                  [] OTHER -> InState(c, Stopping) /\ ~InState(c, Stopped) /\ ~Running(c, Stopping))
  \* at the end every accepted request has had its completion
  /\ R({"M01"}, s = Stopped => \A m \in DOMAIN ms : ms[m].c = c /\ ms[m].k = 1 /\ ms[m].acc = "ok" => ms[m].done)
  /\ cl' = [cl EXCEPT ![c].told = IF s = Starting THEN {Starting} ELSE @ \cup {s},
                      ![c].stopreq = IF s = Stopped THEN cl[c].stops > 0 ELSE @, ![c].must = IF s = Stopped THEN FALSE ELSE @,
                      ![c].inc = IF s = Starting THEN @ + 1 ELSE @,
                      ![c].running = Append(@, s),
                      ![c].x = IF s = Starting THEN 0 ELSE @, ![c].res = IF s = Starting THEN "" ELSE @, ![c].tries = IF s = Starting THEN 0 ELSE @,
                      ![c].endat = IF s \in {Stopping, Stopped} THEN now ELSE @, ![c].startat = IF s = Starting THEN now ELSE @]
  /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
Drop1(q, s) == LET j == CHOOSE j \in DOMAIN q : q[j] = s /\ \A k \in DOMAIN q : q[k] = s => k <= j IN SubSeq(q, 1, j - 1) \o SubSeq(q, j + 1, Len(q))
StateCbEnd(c, s) == Tick /\ Known(c) /\ Running(c, s) /\ cl' = [cl EXCEPT ![c].running = Drop1(@, s)] /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
\* the state reported on request: never ahead of what can have happened, never behind what was told before
Get(c, s, same) ==
  /\ Tick /\ Known(c)
  /\ R({"M02"}, same =>
       CASE s = Starting -> ~InState(c, Stopped)
         [] s = Stopped -> cl[c].told = {} \/ InState(c, Stopping)
         [] OTHER -> cl[c].started)
  /\ UNCHANGED <<cl, cn, ms, nt, lis, lisat>>
Delete(c) == Tick /\ Live(c) /\ cl' = [cl EXCEPT ![c].delc = TRUE] /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
\* destruction waits for running callbacks, except for the one it is called from
Deleted(c) ==
  /\ Tick /\ Known(c)
  /\ R({"M02"}, \A j \in DOMAIN cl[c].running : cl[c].running[j] = Stopped)
  /\ R({"M02"}, Len(cl[c].running) <= 1)
  /\ R({"M02"}, AtRest(c))
  /\ R({"M01"}, \A m \in DOMAIN ms : ms[m].c = c /\ ms[m].k = 1 /\ ms[m].acc = "ok" => ms[m].done)
  /\ cl' = [cl EXCEPT ![c].deld = TRUE]
  /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
\* ---------------------------------------------------------------- connecting
Connect(c, x, r, t) ==
  /\ Tick /\ Known(c)
  /\ R({"M02"}, ~cl[c].raw => Live(c) /\ InState(c, Starting) /\ ~InState(c, Stopped) /\ X(c) = 0)
  /\ R({"M02"}, ~cl[c].raw => cl[c].res \in {"", "retry"})                              \* no further attempt after a definite refusal
  /\ R({"M02"}, ~cl[c].raw /\ cl[c].tries > 0 => t >= cl[c].tat + 50 /\ t <= cl[c].tat + 6000)
  /\ R({"M02"}, r = "ok" => lis # 0)
  /\ cl' = [cl EXCEPT ![c].x = IF r = "ok" THEN x ELSE @, ![c].res = r, ![c].tries = @ + 1, ![c].tat = t]
  /\ cn' = With(cn, x, [c |-> c, inc |-> cl[c].inc, at |-> now, open |-> r = "ok", acc |-> FALSE, dis |-> FALSE, shutS |-> FALSE, shutC |-> FALSE,
                        badS |-> FALSE, badC |-> FALSE, drop |-> FALSE, rfault |-> FALSE, srfault |-> FALSE, unl |-> lis = 2, unsol |-> FALSE])
  /\ UNCHANGED <<ms, nt, lis, lisat>>
Shut(x, srv) ==
  /\ Tick
  /\ cn' = IF x \in DOMAIN cn THEN (IF srv THEN [cn EXCEPT ![x].shutS = TRUE] ELSE [cn EXCEPT ![x].shutC = TRUE]) ELSE cn
  /\ UNCHANGED <<cl, ms, nt, lis, lisat>>
Listen == Tick /\ lis' = 1 /\ lisat' = now /\ UNCHANGED <<cl, cn, ms, nt>>
Unlisten(done) == Tick /\ lis' = (IF done THEN 0 ELSE 2) /\ lisat' = now /\ cn' = [x \in DOMAIN cn |-> [cn[x] EXCEPT !.unl = TRUE]] /\ UNCHANGED <<cl, ms, nt>>
\* what stays the same
Noop == Tick /\ UNCHANGED <<cl, cn, ms, nt, lis, lisat>>
Accept(x, ok) ==
  /\ Tick /\ R({"M03"}, x \in DOMAIN cn /\ cn[x].open /\ ~cn[x].acc)
  /\ cn' = [cn EXCEPT ![x].acc = ok, ![x].drop = ~ok]
  /\ UNCHANGED <<cl, ms, nt, lis, lisat>>
\* the server ends a connection only for a reason concerning this connection (or because it stops)
Disconnect(x) ==
  /\ Tick /\ R({"M03"}, x \in DOMAIN cn /\ cn[x].acc /\ ~cn[x].dis)
  /\ R({"M03"}, cn[x].shutC \/ cn[x].badC \/ cn[x].badS \/ cn[x].drop \/ cn[x].srfault \/ cn[x].unl)
  /\ cn' = [cn EXCEPT ![x].dis = TRUE]
  /\ UNCHANGED <<cl, ms, nt, lis, lisat>>
ServerDrops(x) == Tick /\ cn' = [cn EXCEPT ![x].drop = TRUE] /\ UNCHANGED <<cl, ms, nt, lis, lisat>>
RecvFault(x, srv) == Tick /\ cn' = (IF srv THEN [cn EXCEPT ![x].srfault = TRUE] ELSE [cn EXCEPT ![x].rfault = TRUE]) /\ UNCHANGED <<cl, ms, nt, lis, lisat>>
\* a peer breaks the protocol
BadClient(c) == Tick /\ cl' = [cl EXCEPT ![c].bad = TRUE] /\ cn' = [cn EXCEPT ![X(c)].badC = TRUE] /\ UNCHANGED <<ms, nt, lis, lisat>>
Unsolicited(x) == Tick /\ cn' = [cn EXCEPT ![x].badS = TRUE, ![x].unsol = TRUE] /\ UNCHANGED <<cl, ms, nt, lis, lisat>>
BadServer(x) == Tick /\ cn' = [cn EXCEPT ![x].badS = TRUE] /\ UNCHANGED <<cl, ms, nt, lis, lisat>>
\* ---------------------------------------------------------------- sending
SendCall(c, m, k, len, cb) ==
  /\ Tick /\ Known(c)
  /\ ms' = With(ms, m, [c |-> c, k |-> k, call |-> now, ret |-> 0, acc |-> "call", got |-> FALSE, gotx |-> 0, gotat |-> 0, rep |-> FALSE, done |-> FALSE, ok |-> FALSE,
                        fault |-> FALSE, len |-> len, cb |-> cb, inc |-> cl[c].inc])
  /\ UNCHANGED <<cl, cn, nt, lis, lisat>>
\* messages that may occupy a place of the queue at some time since the call of m (one more may be about to give its place back)
Waiting(c, m) == {q \in DOMAIN ms : /\ ms[q].c = c /\ q # m /\ ms[q].acc \in {"call", "ok"}
                                    /\ ~(ms[q].got /\ ms[q].gotat < ms[m].call) /\ ~ms[q].fault
                                    /\ ~(ms[q].ret # 0 /\ ms[q].ret < cl[c].startat /\ cl[c].startat < ms[m].call)}
RefuseOk(c, m, r, rdy, smax) ==
  /\ R({"M03"}, (r = "big" => ms[m].len > smax) /\ (ms[m].len > smax => r # "ok"))
  /\ R({"M01"}, CASE r = "inval" -> ~rdy
                  [] r = "full" -> Cardinality(Waiting(c, m)) + 1 >= cl[c].cap
                  [] r = "again" -> ms[m].k = 2 /\ ms[m].cb
                  [] r = "io" -> ms[m].fault \/ Cause(c) \/ cl[c].endat > ms[m].call
                  [] OTHER -> TRUE)
SendRet(c, m, r, rdy, smax) ==
  /\ Tick /\ m \in DOMAIN ms
  /\ RefuseOk(c, m, r, rdy, smax)
  \* what is refused is neither delivered nor completed
  /\ R({"M01"}, r # "ok" => ~ms[m].got /\ ~ms[m].done)
  /\ R({"M02"}, r = "ok" => cl[c].raw \/ cl[c].started)
  /\ ms' = [ms EXCEPT ![m].acc = IF r = "ok" THEN "ok" ELSE "no", ![m].ret = now]
  /\ UNCHANGED <<cl, cn, nt, lis, lisat>>
SendFault(x, srv, id) ==
  /\ Tick
  /\ IF srv THEN (IF id \in DOMAIN nt THEN nt' = [nt EXCEPT ![id].fault = TRUE] /\ UNCHANGED ms ELSE UNCHANGED <<nt, ms>>)
     ELSE (IF id \in DOMAIN ms THEN ms' = [ms EXCEPT ![id].fault = TRUE] ELSE UNCHANGED ms) /\ UNCHANGED nt
  /\ UNCHANGED <<cl, cn, lis, lisat>>
SameKind(c, a, b) == cl[c].ord \/ (ms[a].k = 0) = (ms[b].k = 0)
\* sent before m and to arrive before it
Before(m) == {q \in DOMAIN ms : /\ ms[q].c = ms[m].c /\ q # m /\ ms[q].ret # 0 /\ ms[q].ret < ms[m].call /\ ms[q].acc = "ok" /\ SameKind(ms[m].c, q, m)
                                /\ ms[q].call > cl[ms[m].c].endat /\ ~ms[q].fault}
Recv(x, m, req, intact) ==
  /\ Tick
  /\ R({"M03"}, x \in DOMAIN cn /\ cn[x].acc /\ ~cn[x].dis)
  /\ R({"M03"}, intact /\ m \in DOMAIN ms /\ req = (ms[m].k # 0) /\ ms[m].c = cn[x].c)
  /\ R({"M01"}, ~ms[m].got /\ ms[m].acc # "no" /\ ~ms[m].fault)
  /\ R({"M01"}, \A q \in DOMAIN ms : ms[q].got /\ ms[q].gotx = x /\ SameKind(ms[m].c, q, m) => ~(ms[m].ret # 0 /\ ms[m].ret < ms[q].call))
  /\ R({"M01"}, X(ms[m].c) = x => \A q \in Before(m) : ms[q].got)
  /\ ms' = [ms EXCEPT ![m].got = TRUE, ![m].gotx = x, ![m].gotat = now]
  /\ UNCHANGED <<cl, cn, nt, lis, lisat>>
Reply(x, m) == Tick /\ m \in DOMAIN ms /\ ms' = [ms EXCEPT ![m].rep = TRUE] /\ UNCHANGED <<cl, cn, nt, lis, lisat>>
ReplyRet(x, m, ok) == Tick /\ R({"M03"}, ok \/ cn[x].shutC \/ ms[m].fault \/ cn[x].unl \/ cn[x].dis) /\ UNCHANGED <<cl, cn, ms, nt, lis, lisat>>
TooBig(r) == Tick /\ R({"M03"}, r = "big") /\ UNCHANGED <<cl, cn, ms, nt, lis, lisat>>
\* completion of request m
Answered(c, m) == ms[m].rep \/ (X(c) # 0 /\ cn[X(c)].unsol)
Complete(c, m, ok, id, intact, err, small) ==
  /\ R({"M03"}, ok => intact)
  /\ R({"M01"}, m \in DOMAIN ms /\ ms[m].c = c /\ ms[m].k # 0 /\ ~ms[m].done /\ ms[m].acc # "no")
  /\ R({"M01"}, ok => (id = m /\ ms[m].rep /\ ms[m].got) \/ (X(c) # 0 /\ cn[X(c)].unsol))
  /\ R({"M01"}, ~ok => ms[m].fault \/ Cause(c) \/ cl[c].endat > ms[m].call \/ (small /\ Answered(c, m)))
Rep(c, m, ok, id, intact, err) ==
  /\ Tick
  /\ R({"M02"}, cl[c].raw \/ (~cl[c].deld /\ ~AtRest(c)))
  /\ Complete(c, m, ok, id, intact, err, FALSE)
  /\ ms' = [ms EXCEPT ![m].done = TRUE, ![m].ok = ok]
  /\ cl' = [cl EXCEPT ![c].running = Append(@, 10 + m)]
  /\ UNCHANGED <<cn, nt, lis, lisat>>
RepEnd(c, m) == Tick /\ Running(c, 10 + m) /\ cl' = [cl EXCEPT ![c].running = Drop1(@, 10 + m)] /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
WaitRet(c, m, ok, id, intact, r, rdy, small, smax) ==
  /\ Tick
  /\ IF ok THEN Complete(c, m, ok, id, intact, "", small)
     ELSE IF r \in {"inval", "full", "again"} \/ (r = "big" /\ ~(small /\ Answered(c, m))) THEN RefuseOk(c, m, r, rdy, smax) /\ R({"M01"}, ~ms[m].got)
     ELSE Complete(c, m, ok, id, intact, "", small)
  /\ R({"M03"}, ok => ~small /\ ms[m].len <= smax)
  /\ ms' = [ms EXCEPT ![m].done = TRUE, ![m].ok = ok, ![m].ret = now, ![m].acc = IF ok THEN "ok" ELSE IF r \in {"inval", "full", "again"} THEN "no" ELSE "err"]
  /\ UNCHANGED <<cl, cn, nt, lis, lisat>>
\* ---------------------------------------------------------------- notifications
Notify(x, n, big) == Tick /\ nt' = With(nt, n, [x |-> x, got |-> FALSE, acc |-> FALSE, big |-> big, fault |-> FALSE]) /\ UNCHANGED <<cl, cn, ms, lis, lisat>>
NotifyRet(x, n, r) ==
  /\ Tick /\ R({"M03"}, nt[n].big <=> r = "big")
  /\ R({"M03"}, ~nt[n].big /\ r # "ok" => nt[n].fault \/ cn[x].shutC \/ cn[x].unl)
  /\ nt' = [nt EXCEPT ![n].acc = r = "ok"] /\ UNCHANGED <<cl, cn, ms, lis, lisat>>
Notified(c, n, intact) ==
  /\ Tick
  /\ R({"M02"}, cl[c].raw \/ (~cl[c].deld /\ ~AtRest(c)))
  /\ R({"M03"}, intact /\ n \in DOMAIN nt /\ ~nt[n].got /\ ~nt[n].big /\ ~nt[n].fault /\ nt[n].x = X(c))
  /\ R({"M03"}, \A q \in DOMAIN nt : nt[q].x = X(c) /\ nt[q].got => q < n)
  /\ R({"M03"}, \A q \in DOMAIN nt : nt[q].x = X(c) /\ nt[q].acc /\ q < n => nt[q].got)
  /\ nt' = IF n \in DOMAIN nt THEN [nt EXCEPT ![n].got = TRUE] ELSE nt
  /\ cl' = [cl EXCEPT ![c].running = Append(@, 9)]
  /\ UNCHANGED <<cn, ms, lis, lisat>>
NotifiedEnd(c) == Tick /\ Running(c, 9) /\ cl' = [cl EXCEPT ![c].running = Drop1(@, 9)] /\ UNCHANGED <<cn, ms, nt, lis, lisat>>
\* ---------------------------------------------------------------- when nothing moves any more
Dead(x) == cn[x].shutS \/ cn[x].shutC
RestMsgs(c, s) ==
  \A m \in DOMAIN ms : ms[m].c = c /\ ms[m].acc = "ok" =>
    /\ ms[m].k # 0 => ms[m].done
    /\ (ms[m].k = 0 /\ s = Ready /\ ms[m].call > cl[c].endat) => (ms[m].got \/ ms[m].fault)
RestNts(c) == X(c) # 0 /\ ~cl[c].raw => \A n \in DOMAIN nt : nt[n].x = X(c) /\ nt[n].acc => nt[n].got
Rest(c, s, why) ==
  /\ Tick
  /\ R({"M02"}, cl[c].running = << >>)
  /\ R({"M02"}, CASE s = Starting -> cl[c].told = {Starting} /\ lis = 0 /\ ~cl[c].must
                  [] s = Ready -> /\ cl[c].told = {Starting, Ready} /\ ~cl[c].must /\ X(c) # 0
                                  /\ ~Dead(X(c)) /\ why = 0
                  [] s = Stopped -> AtRest(c)
                  [] OTHER -> FALSE)
  /\ R({"M03"}, s = Ready => X(c) # 0 /\ ~cn[X(c)].badS)
  /\ R({"M03"}, s = Ready => RestNts(c))
  /\ R({"M01"}, RestMsgs(c, s))
  /\ UNCHANGED <<cl, cn, ms, nt, lis, lisat>>
\* a peer that broke the protocol was cut off; one that did not was served
RawEnd(c, eof) ==
  /\ Tick
  /\ R({"M03"}, cl[c].bad => eof)
  /\ R({"M03"}, eof => cl[c].bad \/ (X(c) # 0 /\ (cn[X(c)].drop \/ cn[X(c)].unl \/ cn[X(c)].srfault)))
  /\ R({"M03"}, \A m \in DOMAIN ms : ms[m].c = c => ms[m].got \/ eof)
  /\ R({"M01"}, ~eof => \A m \in DOMAIN ms : ms[m].c = c => ms[m].got /\ (ms[m].k # 0 => ms[m].done))
  /\ UNCHANGED <<cl, cn, ms, nt, lis, lisat>>
=============================================================================
