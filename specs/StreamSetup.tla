----------------------------- MODULE StreamSetup -----------------------------
(***************************************************************************)
(* Creation of JetStream controllers: options, what exists on the server    *)
(* and what it refuses, requests that are made, then whether a subscription *)
(* can be made (property C21).                                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Givens == {"none", "name", "config", "anonymous"}   \* a configuration without name is refused
VARIABLE c
Init == c \in [stream : Givens, consumer : Givens, conn : {"default", "options", "given"}, has : SUBSET {"S", "C"}, refuses : {"nothing", "create", "update", "consumer"}]
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
Sensible == (c.consumer = "config" => c.stream # "none") /\ (c.stream = "anonymous" => c.consumer # "anonymous")
\* requests for the stream: it is created, or updated if it exists
StreamCalls == IF c.stream # "config" THEN <<>>
               ELSE <<"STREAM.CREATE.S">> \o (IF "S" \in c.has /\ c.refuses # "create" THEN <<"STREAM.UPDATE.S">> ELSE <<>>)
StreamOk == CASE c.stream = "anonymous" -> FALSE
              [] c.stream = "config" -> c.refuses # "create" /\ ~("S" \in c.has /\ c.refuses = "update")
              [] OTHER -> TRUE
ConsumerCalls == IF StreamOk /\ c.consumer = "config" THEN <<"CONSUMER.CREATE.S.C">> ELSE <<>>
Ok == StreamOk /\ CASE c.consumer = "anonymous" -> FALSE [] c.consumer = "config" -> c.refuses # "consumer" [] OTHER -> TRUE
Has == c.has \cup (IF c.stream = "config" THEN {"S"} ELSE {}) \cup (IF c.consumer = "config" THEN {"C"} ELSE {})
\* the consumer has to exist; the names are the ones that are given
Subscribes == Ok /\ c.stream # "none" /\ c.consumer # "none" /\ "C" \in Has
Complete == Ok => (c.stream = "config" => "S" \in Has) /\ (c.consumer = "config" => "C" \in Has)
Report == Sensible => PrintT("@@" \o ToJson([d |-> c, calls |-> StreamCalls \o ConsumerCalls, ok |-> Ok, subscribes |-> Subscribes,
                                             judged |-> c.stream # "none" /\ c.consumer # "none"]))
=============================================================================
