------------------------------ MODULE KafkaTopic ------------------------------
(***************************************************************************)
(* Topics that do not exist and errors of the broker, for the publication of *)
(* a message and for a subscription (property C23). The client creates the  *)
(* topic when it is missing, waits until it is there, and tries again.      *)
(* plan: what the broker will do.                                           *)
(*   create  - ok, refused, or other (somebody else creates it meanwhile)   *)
(*   hidden  - times that the topic is asked for before it is known         *)
(*   produce - errors of the broker before it takes the message             *)
(*   fetch   - errors of the broker when it is read                         *)
(*   commit  - errors of the broker when offsets are committed              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxHidden, Emit

VARIABLES op, plan, expected, topic, pc, written, result, act
vars == <<op, plan, expected, topic, pc, written, result, act>>
Produce == {<<>>, <<"leader">>, <<"leader", "leader">>, <<"large">>, <<"leader", "large">>}
Fetch == {<<>>, <<"leader">>, <<"denied">>, <<"storage", "replica">>, <<"unknown">>, <<"denied", "denied", "leader", "denied">>}
Commit == {<<>>, <<"moving">>, <<"moving", "moving", "moving">>}
Plans(o) ==
  [there : BOOLEAN, create : {"ok", "refused", "other"}, hidden : 0..MaxHidden, produce : IF o = "pub" THEN Produce ELSE {<<>>},
   fetch : IF o = "sub" THEN Fetch ELSE {<<>>}, commit : IF o = "sub" THEN Commit ELSE {<<>>}, auto : IF o = "sub" THEN BOOLEAN ELSE {TRUE}, group : IF o = "sub" THEN BOOLEAN ELSE {FALSE}]
\* plans without two things that have nothing to do with each other
Useful(o, p) == /\ p.there => p.create = "ok" /\ p.hidden = 0
                /\ (p.fetch # <<>> \/ p.commit # <<>>) => p.there
                /\ p.commit # <<>> => p.group /\ p.fetch = <<>>
                /\ p.create = "refused" => p.hidden = 0 /\ p.produce = <<>>
Fatal(e) == e = "large"
Outcome(p) == IF ~p.there /\ p.create = "refused" THEN "error" ELSE IF \E i \in 1..Len(p.produce) : Fatal(p.produce[i]) THEN "error" ELSE "ok"
Init == /\ op \in {"pub", "sub"} /\ plan \in { p \in Plans(op) : Useful(op, p) }
        /\ expected = Outcome(plan)
        /\ topic = IF plan.there THEN 0 ELSE -1 \* -1: missing; n: will be known after n times
        /\ pc = (IF op = "pub" THEN "write" ELSE "create") /\ written = 0 /\ result = "" /\ act = ""
\* the topic is asked for
Known == topic = 0
Asked == topic' = IF topic > 0 THEN topic - 1 ELSE topic
Write == /\ pc = "write"
         /\ IF ~Known THEN pc' = "create" /\ Asked /\ UNCHANGED <<plan, written, result>>
            ELSE /\ UNCHANGED topic
                 /\ IF plan.produce = <<>> THEN written' = written + 1 /\ result' = "ok" /\ pc' = "end" /\ UNCHANGED plan
                    ELSE /\ plan' = [plan EXCEPT !.produce = Tail(@)] /\ UNCHANGED written
                         /\ IF Fatal(Head(plan.produce)) THEN result' = "error" /\ pc' = "end" ELSE UNCHANGED <<pc, result>>
Create == /\ pc = "create"
          /\ IF topic = -1 /\ plan.create = "refused" THEN result' = "error" /\ pc' = "end" /\ UNCHANGED topic
             ELSE topic' = (IF topic = -1 THEN plan.hidden ELSE topic) /\ pc' = "look" /\ UNCHANGED result
          /\ UNCHANGED <<plan, written>>
Look == /\ pc = "look" /\ Asked /\ pc' = (IF ~Known THEN "create" ELSE IF op = "pub" THEN "write" ELSE "end")
        /\ result' = (IF Known /\ op = "sub" THEN "ok" ELSE result) /\ UNCHANGED <<plan, written>>
Next == (Write \/ Create \/ Look) /\ act' = pc /\ UNCHANGED <<op, expected>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* the message is written once if the publication succeeds, and not at all if it fails
Exactly == pc = "end" => (written = 1) = (op = "pub" /\ result = "ok")
Ends == <>(pc = "end")
Same == pc = "end" => result = expected
Report == act = "" /\ Emit => PrintT("@@" \o ToJson([op |-> op, plan |-> plan, ok |-> expected = "ok"]))
=============================================================================
