------------------------------ MODULE Publish ------------------------------
(***************************************************************************)
(* The publications made by one generated controller: properties C09, C08. *)
(*                                                                         *)
(* A scenario is the shape of a message (where its correlation ID is), the *)
(* version of the specification, and a sequence of calls of the user. What *)
(* is observed is, for each call, what the middlewares and the broker get  *)
(* and what is returned.                                                   *)
(*                                                                         *)
(* Correlation IDs are symbols: "" (none), "u1", "u2" (given by the user), *)
(* "f1", "f2", ... (generated, in order: each one is new).                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxCalls, MaxDepth, Burst, Emit

Bools == {TRUE, FALSE}
\* path to the correlation ID: is each level required ?
Paths == UNION { [1..n -> Bools] : n \in 1..MaxDepth }
\* how the specification gives the location: "inline" everything in the message, "schema": headers and
\* payload by references, "nested": each level by a reference, "trait": by a message trait,
\* "allof": each level composed
Shapes == { [place |-> "none", req |-> <<>>, via |-> "inline"] }
  \cup { [place |-> "header", req |-> <<r>>, via |-> v] : r \in Bools, v \in {"inline", "schema", "trait"} }
  \cup { [place |-> "payload", req |-> p, via |-> v] : p \in Paths, v \in {"inline", "schema", "nested", "allof"} }
  \cup { [place |-> "payload", req |-> p, via |-> "trait"] : p \in { q \in Paths : Len(q) = 1 } }

\* what the user gives: a message without correlation ID, one from the generated constructor (which sets a new
\* correlation ID), or with the correlation ID of the user
User == {"", "new", "u1", "u2"}
Calls == [op : {"send"}, corr : User, fail : {FALSE}]
    \cup [op : {"send"}, corr : {"", "u1"}, fail : {TRUE}]
    \cup [op : {"reply", "send reply"}, corr : User \ {"u2"}, fail : {FALSE}]
    \cup [op : {"burst"}, corr : {"", "new"}, fail : {FALSE}]
\* replies need a correlation ID
Allowed(s, c) == s.place = "none" => c.op \in {"send"} /\ c.corr \in {"", "new"}

VARIABLES ver, shape, calls, fresh
vars == <<ver, shape, calls, fresh>>

F(n) == "f" \o ToString(n)
Ev(ev, corr, ctxcorr) == [ev |-> ev, corr |-> corr, ctx |-> ctxcorr]
Published(corr) == << Ev("middleware", corr, corr), Ev("publish", corr, corr) >>

\* result of a call: <<observations, number of fresh identifiers>>
Outcome(s, v, c, n) ==
  LET ret(r) == [ev |-> "return " \o r, corr |-> "", ctx |-> ""] IN
  CASE s.place = "none" -> << Append(Published(""), ret(IF c.fail THEN "publish" ELSE "ok")), n >>
    [] c.op = "burst" -> << Append([ i \in 1..Burst |-> Ev("publish", F(n + i), F(n + i)) ], ret("ok")), n + Burst >>
    [] c.corr \in {"u1", "u2"} -> << Append(Published(c.corr), ret(IF c.fail THEN "publish" ELSE "ok")), n >>
    [] c.op \in {"reply", "send reply"} /\ v = 3 /\ c.corr = "" -> << <<ret("no correlation")>>, n >>
    [] OTHER -> << Append(Published(F(n + 1)), ret(IF c.fail THEN "publish" ELSE "ok")), n + 1 >>

Init == ver \in {2, 3} /\ shape \in Shapes /\ (shape.via = "trait" => ver = 3) /\ calls = <<>> /\ fresh = 0
Next == /\ Len(calls) < MaxCalls
        /\ \E c \in Calls : /\ Allowed(shape, c)
                            /\ (c.op = "burst" => calls = <<>>)
                            /\ LET o == Outcome(shape, ver, c, fresh) IN
                               /\ calls' = Append(calls, [call |-> c, obs |-> o[1]])
                               /\ fresh' = o[2]
        /\ UNCHANGED <<ver, shape>>
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
\* everything published by the calls, in order
AllPub == [ k \in { <<i, j>> \in (1..Len(calls)) \X (1..(Burst + 2)) :
                    j <= Len(calls[i].obs) /\ calls[i].obs[j].ev = "publish" } |-> calls[k[1]].obs[k[2]] ]
\* a message is never published without a correlation ID when its specification has one
NeverEmpty == shape.place # "none" => \A k \in DOMAIN AllPub : AllPub[k].corr # ""
\* generated identifiers are never used twice
Distinct == shape.place # "none" => \A k, l \in DOMAIN AllPub : k # l /\ AllPub[k].corr = AllPub[l].corr => AllPub[k].corr \in {"u1", "u2"}
\* the identifier given by the user is respected
Respected == \A i \in 1..Len(calls) : calls[i].call.corr \in {"u1", "u2"} =>
               \A j \in 1..Len(calls[i].obs) : calls[i].obs[j].ev = "publish" => calls[i].obs[j].corr = calls[i].call.corr
Invs == NeverEmpty /\ Distinct /\ Respected
Emission == IF Emit /\ Len(calls) = MaxCalls
              THEN PrintT("@@" \o ToJson([ver |-> ver, shape |-> shape, calls |-> calls])) ELSE TRUE
=============================================================================
