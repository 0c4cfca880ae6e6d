---------------------------- MODULE ReplyAddress ----------------------------
(***************************************************************************)
(* Replies whose address is found in the request (version 3): property C10. *)
(* A shape of request says where the address is: in the headers, or in the  *)
(* payload, at some depth, each level being required or not. A call is a    *)
(* request, or a reply to a received request, where the first `alloc`       *)
(* levels of the path are set. It is refused, without any call of the       *)
(* broker, unless there is a non empty address.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDepth, Emit
Addrs == {"reply.one", "%d{x}.\"two\" \\ three", ""}
Shapes == { [place |-> "header", req |-> <<r>>, via |-> v] : r \in BOOLEAN, v \in {"inline", "schema", "trait"} }
     \cup { [place |-> "payload", req |-> q, via |-> v] : q \in UNION { [1..n -> BOOLEAN] : n \in 1..MaxDepth }, v \in {"inline", "schema", "nested", "allof"} }
VARIABLES shape, action, call, addr, done
vars == <<shape, action, call, addr, done>>
Init == /\ shape \in Shapes /\ action \in {"receive", "send"}
        /\ call \in [op : {"request", "reply"}, alloc : 0..Len(shape.req)] /\ addr \in Addrs
        /\ call.alloc < Len(shape.req) => addr = ""       \* levels below are not set at all
        /\ done = <<>>
\* the levels that are set: the required objects are there as soon as their parents are, empty
RECURSIVE Reached(_, _)
Reached(s, n) == IF n = Len(s.req) THEN n ELSE IF s.req[n + 1] THEN Reached(s, n + 1) ELSE n
Found == IF Reached(shape, call.alloc) = Len(shape.req) THEN addr ELSE ""
Next == /\ done = <<>> /\ UNCHANGED <<shape, action, call, addr>>
        /\ done' = IF Found = "" THEN <<"empty address">>
                   ELSE IF call.op = "request" THEN <<"broker subscribe " \o Found, "broker publish request", "broker cancel " \o Found, "publish">>
                   ELSE <<"broker publish " \o Found, "ok">>
Spec == Init /\ [][Next]_vars
Invs == done # <<>> /\ done # <<"empty address">> => addr # "" /\ call.alloc = Len(shape.req)
Emission == IF Emit /\ done # <<>> THEN PrintT("@@" \o ToJson([shape |-> shape, action |-> action, call |-> call, addr |-> addr, o |-> done])) ELSE TRUE
=============================================================================
