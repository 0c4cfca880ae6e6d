------------------------------ MODULE LogEntry ------------------------------
(***************************************************************************)
(* What an entry of the provided loggers contains: property C24. An entry   *)
(* is a tree, given by its leaves: pairs of a path and a value. Information *)
(* is added one at a time: a dot in the key is a level of the tree, and the *)
(* last information added for a path wins, over values above and below it.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxInfo, Emit

Keys == { <<"a">>, <<"a", "b">>, <<"a", "c">>, <<"a", "b", "d">>, <<"Message">>, <<"message">>, <<"log", "level">>, <<"Channel">>,
          <<"asyncapi", "channel">>, <<"trace">>, <<"event", "original", "x">>, <<"">> }
\* the harness knows what they stand for: quotes, line breaks, format verbs, structures, errors...
Vals == {"plain", "hard", "struct"}
CtxKeys == {"provider", "channel", "direction", "message", "correlation"}
VARIABLES sc, todo, leaves, printed
vars == <<sc, todo, leaves, printed>>

Loggers == {"ecs", "text"}
Levels == {"info", "warning", "error"}
Infos == UNION { [1..n -> [key : Keys, val : Vals]] : n \in 0..MaxInfo }
Dirs == {"publication", "reception", "wait-for"}
In(k, path, v) == IF k \in sc.ctx THEN <<[key |-> path, val |-> v]>> ELSE <<>>
FromContext ==
  IF sc.logger = "ecs" THEN
       In("provider", <<"asyncapi", "provider">>, "ctx provider") \o In("channel", <<"asyncapi", "channel">>, "ctx channel")
    \o (IF sc.dir = "wait-for" THEN <<>> ELSE In("direction", <<"event", "action">>, "ctx action"))
    \o In("message", <<"event", "original">>, "ctx message") \o In("correlation", <<"trace", "id">>, "ctx correlation")
    \o << [key |-> <<"message">>, val |-> "msg"], [key |-> <<"@timestamp">>, val |-> "time"], [key |-> <<"log", "logger">>, val |-> "any"] >>
  ELSE In("channel", <<"Channel">>, "ctx channel") \o In("correlation", <<"CorrelationID">>, "ctx correlation")
    \o In("message", <<"Content">>, "ctx message")
    \o << [key |-> <<"Message">>, val |-> "msg"], [key |-> <<"@Timestamp">>, val |-> "time"] >>
Level == IF sc.logger = "ecs" THEN << [key |-> <<"log", "level">>, val |-> "level"] >> ELSE <<>>

Prefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Add(ls, i) == { l \in ls : ~Prefix(l.key, i.key) /\ ~Prefix(i.key, l.key) } \cup {i}

Init == /\ sc \in [logger : Loggers, level : Levels, info : Infos, ctx : SUBSET CtxKeys, dir : Dirs]
        /\ (sc.dir # "publication") => sc.ctx = CtxKeys
        /\ (sc.level # "info") => Len(sc.info) < MaxInfo
        /\ Len(sc.info) = MaxInfo => sc.ctx \in {{}, CtxKeys}
        /\ todo = sc.info \o Level \o FromContext /\ leaves = {} /\ printed = FALSE
Step == todo # <<>> /\ leaves' = Add(leaves, Head(todo)) /\ todo' = Tail(todo) /\ UNCHANGED <<sc, printed>>
Finish == todo = <<>> /\ ~printed /\ printed' = TRUE /\ UNCHANGED <<sc, todo, leaves>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars

\* a tree: no value at two levels of the same branch; what the library gives is always there, whatever the user gives
Tree == \A l, m \in leaves : Prefix(l.key, m.key) => l = m
Complete == printed => \A i \in 1..Len(FromContext \o Level) : (FromContext \o Level)[i] \in leaves
Kept == printed => \A i \in 1..Len(sc.info) :
          \/ sc.info[i] \in leaves
          \/ \E j \in i+1..Len(sc.info) : Prefix(sc.info[i].key, sc.info[j].key) \/ Prefix(sc.info[j].key, sc.info[i].key)
          \/ \E l \in leaves : l.val \notin Vals /\ (Prefix(sc.info[i].key, l.key) \/ Prefix(l.key, sc.info[i].key))
Invs == Tree /\ Complete /\ Kept
Emission == IF Emit /\ printed THEN PrintT("@@" \o ToJson([sc |-> sc, leaves |-> leaves])) ELSE TRUE
=============================================================================
