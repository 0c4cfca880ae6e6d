------------------------------ MODULE Address ------------------------------
(***************************************************************************)
(* The addresses used by a generated controller on a channel whose address *)
(* is a template: property C10. A template is a sequence of tokens,         *)
(* parameters being written {name}. Two users of the channel, with values   *)
(* A and B of the parameters, follow a script; what reaches the broker and  *)
(* the handlers only depends on the addresses.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lits, MaxLen, MaxPlain, Emit

Params == {"a", "b-c"}
Tokens == [t : {"lit"}, s : Lits] \cup [t : {"param"}, s : Params]
Used(tpl) == { tpl[i].s : i \in { i \in 1..Len(tpl) : tpl[i].t = "param" } }
Templates == { tpl \in UNION { [1..n -> Tokens] : n \in 1..MaxLen } : Used(tpl) # {} \/ Len(tpl) <= MaxPlain }

\* ~ stands for a letter that is not ASCII; parameters of version 3 are strings; in version 2, b-c is an integer
Values(ver, p) == IF ver = 2 /\ p = "b-c" THEN <<"1", "-12", "0">> ELSE <<"x", "x1", "%d{a}/~">>
Assignments == [A : [Params -> 1..3], B : [Params -> 1..3]]
Pairs == { [A |-> [p \in Params |-> 1], B |-> [p \in Params |-> 2]],
           [A |-> [p \in Params |-> IF p = "a" THEN 1 ELSE 2], B |-> [p \in Params |-> IF p = "a" THEN 2 ELSE 1]],
           [A |-> [p \in Params |-> 3], B |-> [p \in Params |-> 3]],
           [A |-> [p \in Params |-> IF p = "a" THEN 3 ELSE 1], B |-> [p \in Params |-> IF p = "a" THEN 1 ELSE 3]] }

Text(ver, tok, asg) == IF tok.t = "lit" THEN tok.s ELSE Values(ver, tok.s)[asg[tok.s]]
RECURSIVE Subst(_, _, _)
Subst(ver, tpl, asg) == IF tpl = <<>> THEN "" ELSE Text(ver, Head(tpl), asg) \o Subst(ver, Tail(tpl), asg)
RECURSIVE Written(_)
Written(tpl) == IF tpl = <<>> THEN "" ELSE (IF Head(tpl).t = "lit" THEN Head(tpl).s ELSE "{" \o Head(tpl).s \o "}") \o Written(Tail(tpl))

VARIABLES ver, tpl, pair, pc, subs, done
vars == <<ver, tpl, pair, pc, subs, done>>
Addr(w) == Subst(ver, tpl, pair[w])

Script == << <<"subscribe", "A">>, <<"subscribe", "B">>, <<"send", "A">>, <<"send", "B">>, <<"deliver", "A">>, <<"deliver", "B">>,
             <<"request", "A">>, <<"unsubscribe", "A">>, <<"deliver", "B">>, <<"subscribe", "A">>, <<"unsubscribe", "A">>, <<"unsubscribe", "B">>,
             <<"unsubscribe", "B">> >>
O(ev, x) == ev \o " " \o x
Init == /\ ver \in {2, 3} /\ tpl \in Templates /\ pair \in Pairs /\ pc = 1 /\ subs = {} /\ done = <<>>
        /\ Used(tpl) = {} => pair.A = [p \in Params |-> 3]
Do(op, w) == LET a == Addr(w) IN
  CASE op = "subscribe" -> IF a \in subs THEN [o |-> <<"already subscribed">>, s |-> subs]
                           ELSE [o |-> <<O("broker subscribe", a), "ok">>, s |-> subs \cup {a}]
    [] op = "unsubscribe" -> IF a \in subs THEN [o |-> <<O("broker cancel", a)>>, s |-> subs \ {a}] ELSE [o |-> <<>>, s |-> subs]
    [] op = "send" -> [o |-> <<O("broker publish", a), "ok">>, s |-> subs]
    [] op = "deliver" -> [o |-> IF a \in subs THEN <<O("handler", a)>> ELSE <<>>, s |-> subs]
    [] op = "request" -> [o |-> <<O(IF ver = 3 THEN "broker publish" ELSE "broker subscribe", a)>>, s |-> subs]
Next == /\ pc <= Len(Script) /\ pc' = pc + 1
        /\ LET r == Do(Script[pc][1], Script[pc][2]) IN
           /\ subs' = r.s
           /\ done' = Append(done, [op |-> Script[pc][1], w |-> Script[pc][2], addr |-> Addr(Script[pc][2]), o |-> r.o])
        /\ UNCHANGED <<ver, tpl, pair>>
Spec == Init /\ [][Next]_vars
\* two users are independent unless their addresses are the same
Invs == subs \subseteq {Addr("A"), Addr("B")} /\ (pc > Len(Script) => subs = {})
Val(w) == [p \in Used(tpl) |-> Values(ver, p)[pair[w][p]]]
Emission == IF Emit /\ pc > Len(Script)
            THEN PrintT("@@" \o ToJson([ver |-> ver, tpl |-> Written(tpl), A |-> Val("A"), B |-> Val("B"), steps |-> done])) ELSE TRUE
=============================================================================
