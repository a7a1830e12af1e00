---------------------------- MODULE MC_Deferred ----------------------------
(* A list sorted by due time under a lock, callbacks run and destroyed with the lock released, refines Deferred. *)
EXTENDS Deferred, SequencesExt
CONSTANTS Ids, Owners, MaxDue, MaxPass
VARIABLES q,      \* the list of commands
          reg,    \* [command -> "no" | "called" | "put" | "done"]
          epc,    \* engine thread
          todo,   \* commands withdrawn but not destroyed yet
          pass, cleans
mcvars == <<vars, q, reg, epc, todo, pass, cleans>>
D == INSTANCE Deferred WITH Enforced <- {"M04"}, Diag <- FALSE
Init == Init0 /\ q = << >> /\ reg = [j \in Ids |-> "no"] /\ epc = "idle" /\ todo = << >> /\ pass = 0 /\ cleans = 0
Same == UNCHANGED vars
RegA(j) == /\ reg[j] = "no" /\ (\A k \in Ids : k < j => reg[k] # "no") /\ \E o \in Owners, d \in 0..MaxDue : RegCall(j, o, d)
           /\ reg' = [reg EXCEPT ![j] = "called"] /\ UNCHANGED <<q, epc, todo, pass, cleans>>
Put(j) == /\ reg[j] = "called" /\ Same /\ reg' = [reg EXCEPT ![j] = "put"]
          /\ LET n == Cardinality({x \in 1..Len(q) : ent[q[x]].due <= ent[j].due}) IN
             q' = SubSeq(q, 1, n) \o <<j>> \o SubSeq(q, n + 1, Len(q))
          /\ UNCHANGED <<epc, todo, pass, cleans>>
RegB(j) == reg[j] = "put" /\ RegRet(j) /\ reg' = [reg EXCEPT ![j] = "done"] /\ UNCHANGED <<q, epc, todo, pass, cleans>>
Start == epc = "idle" /\ pass < MaxPass /\ pass' = pass + 1 /\ (\E n \in {0, MaxDue} : ProcCall(n)) /\ epc' = "pick" /\ UNCHANGED <<q, reg, todo, cleans>>
Pick == /\ epc = "pick" /\ Same
        /\ IF q = << >> THEN epc' = "ret0" /\ UNCHANGED <<q, todo>>
           ELSE IF ent[Head(q)].due > proc.now THEN epc' = "ret" /\ todo' = <<ent[Head(q)].due>> /\ UNCHANGED q
           ELSE epc' = "run" /\ todo' = <<Head(q)>> /\ q' = Tail(q)
        /\ UNCHANGED <<reg, pass, cleans>>
Ret == /\ epc \in {"ret", "ret0"} /\ (IF epc = "ret0" THEN ProcRet(0) ELSE ProcRet(todo[1]))
       /\ epc' = "idle" /\ todo' = << >> /\ UNCHANGED <<q, reg, pass, cleans>>
RunA == epc = "run" /\ Run(todo[1], proc.now) /\ epc' = "cb" /\ UNCHANGED <<q, reg, todo, pass, cleans>>
RunB == epc = "cb" /\ RunRet(running) /\ epc' = "destroy" /\ UNCHANGED <<q, reg, todo, pass, cleans>>
Destroy == epc = "destroy" /\ Gone(todo[1]) /\ todo' = << >> /\ epc' = "pick" /\ UNCHANGED <<q, reg, pass, cleans>>
\* the engine thread withdraws an owner's commands between passes or inside a callback
CleanA == /\ epc \in {"idle", "cb"} /\ cleans < 1 /\ cleans' = cleans + 1 /\ \E o \in Owners : CleanCall(o)
          /\ epc' = (IF epc = "cb" THEN "clean_cb" ELSE "clean_idle") /\ UNCHANGED <<q, reg, todo, pass>>
CleanM == /\ epc \in {"clean_cb", "clean_idle"} /\ Same
          /\ LET o == clean[Len(clean)].o IN
             /\ q' = SelectSeq(q, LAMBDA j : ent[j].o # o)
             /\ todo' = todo \o SelectSeq(q, LAMBDA j : ent[j].o = o)
          /\ epc' = (IF epc = "clean_cb" THEN "disp_cb" ELSE "disp_idle") /\ UNCHANGED <<reg, pass, cleans>>
Keep == IF epc = "disp_cb" THEN 1 ELSE 0
Disp == /\ epc \in {"disp_cb", "disp_idle"}
        /\ IF Len(todo) > Keep
           THEN Gone(todo[Keep + 1]) /\ todo' = SubSeq(todo, 1, Keep) \o SubSeq(todo, Keep + 2, Len(todo)) /\ UNCHANGED epc
           ELSE CleanRet(clean[Len(clean)].o) /\ epc' = (IF epc = "disp_cb" THEN "cb" ELSE "idle") /\ UNCHANGED todo
        /\ UNCHANGED <<q, reg, pass, cleans>>
Next == (\E j \in Ids : RegA(j) \/ Put(j) \/ RegB(j)) \/ Start \/ Pick \/ Ret \/ RunA \/ RunB \/ Destroy \/ CleanA \/ CleanM \/ Disp
Spec == Init /\ [][Next]_mcvars
SNext == \/ \E j \in Ids : (\E o \in Owners, d \in 0..MaxDue : D!RegCall(j, o, d)) \/ D!RegRet(j) \/ D!Run(j, proc.now) \/ D!RunRet(j) \/ D!Gone(j)
         \/ \E n \in 0..MaxDue : D!ProcCall(n) \/ D!ProcRet(n)
         \/ \E o \in Owners : D!CleanCall(o) \/ D!CleanRet(o)
Refines == [][SNext]_vars
=============================================================================
