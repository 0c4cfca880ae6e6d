------------------------------ MODULE Jetstream ------------------------------
(***************************************************************************)
(* The JetStream controller and a stream (property C21): which subscription *)
(* gets each message, what is acknowledged and when messages are consumed.  *)
(* The server keeps what has not been settled, and sends it again when it   *)
(* is told to. A slot is a subscription; a message is on the server (pend), *)
(* or with the user (out), or has been nacked.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Msgs, Sets, Emit

None == "none"
\* patterns of the channels, and subjects of the messages
Config == [plain |-> [chans |-> <<"a", "b">>, subjects |-> <<"a", "b", "c">>],
           wild |-> [chans |-> <<"a.*", "b.>">>, subjects |-> <<"a.x", "b.y.z", "b", "a.x.y">>],
           overlap |-> [chans |-> <<"a.*", "a.x", "a.>">>, subjects |-> <<"a.x", "a.y", "a.x.y">>],
           all |-> [chans |-> <<">", "*">>, subjects |-> <<"a", "a.b">>]]
Matches == [x \in {"a", "b"} |-> {x}] @@ ("a.*" :> {"a.x", "a.y"}) @@ ("b.>" :> {"b.y.z"}) @@ ("a.x" :> {"a.x"}) @@ ("a.>" :> {"a.x", "a.y", "a.x.y"})
           @@ (">" :> {"a", "b", "a.b", "a.x", "a.y", "b.y.z", "a.x.y", "c"}) @@ ("*" :> {"a", "b", "c"})
SeqSet(s) == { s[i] : i \in 1..Len(s) }

VARIABLES set,  \* configuration
          slot, \* slot[i]: channel of the subscription, or none
          msg,  \* msg[m]: state (none, pend, out, naked) and subject
          pend, \* messages that the server has to send, in order
          act, obs
vars == <<set, slot, msg, pend, act, obs>>
view == <<set, slot, msg, pend>>
NoMsg == [s |-> None, subj |-> ""]
NoObs == [got |-> <<>>, acks |-> {}, srv |-> {}]
Chans == SeqSet(Config[set].chans)
Init == /\ set \in Sets /\ slot = [i \in Slots |-> None] /\ msg = [m \in Msgs |-> NoMsg] /\ pend = <<>>
        /\ act = [op |-> ""] /\ obs = NoObs
Open(sl) == { i \in Slots : sl[i] # None }
A(op, i, ch, m, k) == [op |-> op, i |-> i, ch |-> ch, m |-> m, k |-> k]
Takers(sl, subj) == { i \in Open(sl) : subj \in Matches[sl[i]] }

\* What happens to the messages that the server sends, in order, with these subscriptions: each is given to one that
\* matches, or acknowledged at once
Consume(sl, todo, ms) ==
  LET give == SelectSeq(todo, LAMBDA m : Takers(sl, ms[m].subj) # {})
      drop == { m \in SeqSet(todo) : Takers(sl, ms[m].subj) = {} } IN
  /\ msg' = [m \in Msgs |-> IF m \in drop THEN NoMsg ELSE IF m \in SeqSet(give) THEN [ms[m] EXCEPT !.s = "out"] ELSE ms[m]]
  /\ pend' = <<>>
  /\ obs' = [got |-> [j \in 1..Len(give) |-> [m |-> give[j], to |-> Takers(sl, ms[give[j]].subj)]],
             acks |-> { [m |-> m, k |-> "ack"] : m \in drop },
             srv |-> IF Open(slot) = {} THEN {"start"} ELSE {}]
\* the server has a message to send
Arrive(sl, m, ms) == IF Open(sl) # {} THEN Consume(sl, <<m>>, ms)
                     ELSE msg' = [ms EXCEPT ![m].s = "pend"] /\ pend' = Append(pend, m) /\ obs' = NoObs

Subscribe(ch) ==
  /\ \E i \in Slots : slot[i] = None
  /\ LET i == CHOOSE i \in Slots : slot[i] = None /\ \A j \in Slots : slot[j] = None => i <= j IN
     slot' = [slot EXCEPT ![i] = ch] /\ act' = A("sub", i, ch, 0, "")
  /\ Consume(slot', pend, msg) /\ UNCHANGED set
\* the consumer does not exist: nothing remains of the subscription
SubscribeFails(ch) == /\ Open(slot) = {} /\ act' = A("subfail", 0, ch, 0, "") /\ obs' = NoObs /\ UNCHANGED <<set, slot, msg, pend>>
Cancel(i) == /\ slot[i] # None /\ slot' = [slot EXCEPT ![i] = None] /\ act' = A("cancel", i, "", 0, "")
             /\ obs' = [NoObs EXCEPT !.srv = IF Open(slot') = {} THEN {"stop"} ELSE {}] /\ UNCHANGED <<set, msg, pend>>
Publish(subj, k) ==
  /\ \E m \in Msgs : msg[m].s = None
  /\ LET m == CHOOSE m \in Msgs : msg[m].s = None /\ \A n \in Msgs : msg[n].s = None => m <= n
         ms == [msg EXCEPT ![m] = [s |-> "new", subj |-> subj]] IN
     Arrive(slot, m, ms) /\ act' = A("pub", 0, subj, m, k)
  /\ UNCHANGED <<set, slot>>
\* the user settles a message: whatever has happened to the subscription
Settle(m, k) == /\ msg[m].s = "out"
                /\ msg' = [msg EXCEPT ![m] = IF k = "ack" THEN NoMsg ELSE [@ EXCEPT !.s = "naked"]]
                /\ obs' = [NoObs EXCEPT !.acks = {[m |-> m, k |-> k]}] /\ act' = A("settle", 0, "", m, k)
                /\ UNCHANGED <<set, slot, pend>>
\* the delay of a message that has been nacked, or has not been settled, is over
Redeliver(m) == /\ msg[m].s \in {"naked", "out"} /\ Arrive(slot, m, msg) /\ act' = A("again", 0, "", m, "") /\ UNCHANGED <<set, slot>>
Next == \/ \E ch \in Chans : Subscribe(ch) \/ SubscribeFails(ch)
        \/ \E i \in Slots : Cancel(i)
        \/ \E subj \in SeqSet(Config[set].subjects), k \in {"controller", "other"} : Publish(subj, k)
        \/ \E m \in Msgs : Redeliver(m) \/ \E k \in {"ack", "nak"} : Settle(m, k)
Spec == Init /\ [][Next]_vars

\* nothing is kept by the server when messages are consumed; nothing is consumed otherwise
Kept == (Open(slot) # {} => pend = <<>>) /\ SeqSet(pend) = { m \in Msgs : msg[m].s = "pend" }
\* a message is acknowledged by the user, or because nobody wants it
Acked == [][\A x \in obs'.acks : act'.op = "settle" \/ Takers(slot', IF act'.op = "pub" THEN act'.ch ELSE msg[x.m].subj) = {}]_vars
Given == \A j \in 1..Len(obs.got) : \A i \in obs.got[j].to : slot[i] # None /\ msg[obs.got[j].m].subj \in Matches[slot[i]]
Fp(s, m, p) == [s |-> s, m |-> m, p |-> p]
Emission == Emit => PrintT("@@" \o ToJson([s |-> Fp(slot, msg, pend), t |-> Fp(slot', msg', pend'), a |-> act', o |-> obs', opt |-> set]))
=============================================================================
