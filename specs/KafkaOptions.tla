----------------------------- MODULE KafkaOptions -----------------------------
(***************************************************************************)
(* Options of Kafka controllers (property C23): two controllers are created *)
(* with their own options, then used. What a controller does only depends   *)
(* on its options and on the broker it is given.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Emit

P(tls, sasl, g, part, max, test) == [tls |-> tls, sasl |-> sasl, group |-> g, part |-> part, max |-> max, test |-> test]
Def == P(FALSE, "", "", 0, 0, TRUE)
Profiles == [def |-> Def, tls |-> [Def EXCEPT !.tls = TRUE], ann |-> P(TRUE, "ann", "", 0, 0, TRUE), bob |-> P(TRUE, "bob", "h", 0, 7000, TRUE),
             bad |-> P(TRUE, "bad", "", 0, 0, TRUE), late |-> P(FALSE, "", "", 0, 0, FALSE), latetls |-> P(TRUE, "ann", "g", 0, 0, FALSE),
             group |-> [Def EXCEPT !.group = "g"], part |-> [Def EXCEPT !.part = 1], max |-> [Def EXCEPT !.max = 5000]]
Natural(p) == IF Profiles[p].sasl # "" THEN "auth" ELSE IF Profiles[p].tls THEN "tls" ELSE "plain"
Brokers == {"plain", "tls", "auth", "down"}

VARIABLES who,  \* who[c]: profile and broker of the controller
          done, \* operations that have been done
          alive, \* controllers that could be created
          act, obs
vars == <<who, done, alive, act, obs>>
NoObs == [ok |-> TRUE, conn |-> TRUE, secure |-> FALSE, user |-> "", group |-> "", parts |-> {}, max |-> 0]
Init == /\ \E p \in DOMAIN Profiles, b \in Brokers, q \in DOMAIN Profiles, first \in {1, 2} :
             who = [c \in {1, 2} |-> IF c = first THEN [p |-> p, b |-> b] ELSE [p |-> q, b |-> Natural(q)]]
        /\ done = <<>> /\ alive = {} /\ act = [op |-> ""] /\ obs = NoObs
O(c) == Profiles[who[c].p]
\* the controller speaks the same language as the broker
Talks(c) == /\ who[c].b # "down" /\ O(c).tls = (who[c].b \in {"tls", "auth"})
            /\ who[c].b = "auth" => O(c).sasl # ""
            /\ O(c).sasl # "bad"
Seen(c) == [NoObs EXCEPT !.ok = Talks(c), !.secure = O(c).tls, !.user = O(c).sasl]
Do(op, c) == done' = Append(done, <<op, c>>) /\ act' = [op |-> op, c |-> c] /\ UNCHANGED who
New(c) == /\ Do("new", c) /\ obs' = IF O(c).test THEN Seen(c) ELSE [Seen(c) EXCEPT !.ok = TRUE, !.conn = FALSE]
          /\ alive' = IF obs'.ok THEN alive \cup {c} ELSE alive
Use(op, c) == /\ c \in alive /\ Do(op, c) /\ UNCHANGED alive
              /\ obs' = IF op = "pub" THEN Seen(c)
                        ELSE [Seen(c) EXCEPT !.group = O(c).group, !.parts = IF O(c).group = "" THEN {O(c).part} ELSE {0, 1}, !.max = IF O(c).max = 0 THEN 10000000 ELSE O(c).max]
Skip(op, c) == c \notin alive /\ done' = Append(done, <<op, c>>) /\ act' = [op |-> "skip", c |-> c] /\ obs' = NoObs /\ UNCHANGED <<who, alive>>
\* the second one is created before or after; then both are used
Order == <<<<"new", 1>>, <<"new", 2>>, <<"sub", 1>>, <<"sub", 2>>, <<"pub", 1>>, <<"pub", 2>>>>
Next == /\ Len(done) < Len(Order)
        /\ LET o == Order[Len(done) + 1] IN IF o[1] = "new" THEN New(o[2]) ELSE Use(o[1], o[2]) \/ Skip(o[1], o[2])
Spec == Init /\ [][Next]_vars
\* a controller is created unless it has to try, and cannot connect; its operations work when it can
Alone == \A c \in alive : ~O(c).test \/ Talks(c)
Emission == Emit => PrintT("@@" \o ToJson([who |-> who, opts |-> [c \in {1, 2} |-> O(c)], i |-> Len(done'), a |-> act', o |-> obs']))
=============================================================================
