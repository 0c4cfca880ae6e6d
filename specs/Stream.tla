-------------------------------- MODULE Stream --------------------------------
(***************************************************************************)
(* The JetStream controller under concurrent subscriptions, cancellations   *)
(* and messages: what is visible for the server and the user. A message     *)
(* that is sent while a subscription that matches is active, and remains    *)
(* so, is read by one of those; only a message that nobody was waiting for  *)
(* is acknowledged without the user; what is lost because of a cancellation *)
(* remains unsettled, then is sent again.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Subs, Msgs, Inboxes, Chans, Subjects
None == "none"
Wants == ("" :> {}) @@ [a |-> {"a"}, b |-> {"b"}] @@ ("c.*" :> {"c.x", "c.y"}) @@ ("d.>" :> {"d.x.y", "d.z"})
Match(c, s) == s \in Wants[c]
VARIABLES st, chan, told, \* as in Delivery
          last,  \* last[k]: inbox and position of the last message read
          open,  \* inboxes that the server sends messages to
          subj, pos, \* subject, inbox and position of the messages sent
          taker, \* taker[m]: 0, subscription that has read it, -1 (acknowledged as nobody wants it)
          cover, \* cover[m]: subscriptions that are active since it has been sent
          bare,  \* bare[m]: there has been none at some point
          could, \* could[m]: subscriptions that may have taken it
          loss,  \* loss[m]: it may have been taken by a subscription that is canceled
          how, acked, \* what the user, then the server, did
          n
vars == <<st, chan, told, last, open, subj, pos, taker, cover, bare, could, loss, how, acked, n>>
Init == /\ st = [k \in Subs |-> None] /\ chan = [k \in Subs |-> ""] /\ told = [k \in Subs |-> FALSE] /\ last = [k \in Subs |-> <<0, 0>>]
        /\ open = {} /\ subj = [m \in Msgs |-> ""] /\ pos = [m \in Msgs |-> <<0, 0>>] /\ taker = [m \in Msgs |-> 0]
        /\ cover = [m \in Msgs |-> {}] /\ bare = [m \in Msgs |-> FALSE] /\ could = [m \in Msgs |-> {}] /\ loss = [m \in Msgs |-> FALSE]
        /\ how = [m \in Msgs |-> ""] /\ acked = [m \in Msgs |-> ""] /\ n = 0
UM == UNCHANGED <<subj, pos, taker, cover, bare, could, loss, how, acked, n>>
US == UNCHANGED <<st, chan, told, last, open>>
Flying(m) == subj[m] # "" /\ taker[m] = 0
SubCall(k, c) == /\ st[k] = None /\ st' = [st EXCEPT ![k] = "called"] /\ chan' = [chan EXCEPT ![k] = c]
                 /\ could' = [m \in Msgs |-> IF Flying(m) /\ Match(c, subj[m]) THEN could[m] \cup {k} ELSE could[m]]
                 /\ UNCHANGED <<told, last, open, subj, pos, taker, cover, bare, loss, how, acked, n>>
SubRet(k) == st[k] = "called" /\ st' = [st EXCEPT ![k] = "ready"] /\ UNCHANGED <<chan, told, last, open>> /\ UM
CancelCall(k) == /\ st[k] = "ready" /\ st' = [st EXCEPT ![k] = "canceling"]
                 /\ cover' = [m \in Msgs |-> IF Flying(m) THEN cover[m] \ {k} ELSE cover[m]]
                 /\ bare' = [m \in Msgs |-> bare[m] \/ (Flying(m) /\ cover[m] \ {k} = {})]
                 /\ loss' = [m \in Msgs |-> loss[m] \/ (Flying(m) /\ k \in could[m])]
                 /\ UNCHANGED <<chan, told, last, open, subj, pos, taker, could, how, acked, n>>
CancelRet(k) == st[k] = "canceling" /\ st' = [st EXCEPT ![k] = "over"] /\ UNCHANGED <<chan, told, last, open>> /\ UM
Closed(k) == st[k] \in {"canceling", "over"} /\ ~told[k] /\ told' = [told EXCEPT ![k] = TRUE] /\ UNCHANGED <<st, chan, last, open>> /\ UM
\* messages are consumed because of a subscription, and until there is none
Start(x) == /\ x \notin open /\ \E k \in Subs : st[k] # None
            /\ open' = open \cup {x} /\ UNCHANGED <<st, chan, told, last>> /\ UM
Stop(x) == /\ x \in open /\ \E k \in Subs : st[k] \in {"canceling", "over"} /\ open' = open \ {x}
           \* what the server has just sent there may be lost
           /\ loss' = [m \in Msgs |-> loss[m] \/ (Flying(m) /\ pos[m][1] = x)]
           /\ UNCHANGED <<st, chan, told, last, subj, pos, taker, cover, bare, could, how, acked, n>>
Send(m, s, x) ==
  /\ x \in open /\ (subj[m] = "" \/ (subj[m] = s /\ acked[m] # "ack" /\ (taker[m] > 0 => acked[m] = "nak")))
  /\ subj' = [subj EXCEPT ![m] = s] /\ n' = n + 1 /\ pos' = [pos EXCEPT ![m] = <<x, n + 1>>] /\ taker' = [taker EXCEPT ![m] = 0]
  /\ how' = [how EXCEPT ![m] = ""] /\ acked' = [acked EXCEPT ![m] = ""]
  /\ LET c == { k \in Subs : st[k] = "ready" /\ Match(chan[k], s) } d == { k \in Subs : st[k] # None /\ ~told[k] /\ Match(chan[k], s) } IN
     /\ cover' = [cover EXCEPT ![m] = c] /\ bare' = [bare EXCEPT ![m] = c = {}] /\ could' = [could EXCEPT ![m] = d]
     /\ loss' = [loss EXCEPT ![m] = \E k \in d : st[k] \in {"canceling", "over"}]
  /\ US
Read(k, m) ==
  /\ Flying(m) /\ Match(chan[k], subj[m]) /\ st[k] # None /\ ~told[k]
  /\ last[k][1] # pos[m][1] \/ last[k][2] < pos[m][2]
  /\ last' = [last EXCEPT ![k] = pos[m]] /\ taker' = [taker EXCEPT ![m] = k]
  /\ UNCHANGED <<st, chan, told, open, subj, pos, cover, bare, could, loss, how, acked, n>>
Settle(m, h) == /\ taker[m] > 0 /\ how[m] = "" /\ how' = [how EXCEPT ![m] = h]
                /\ US /\ UNCHANGED <<subj, pos, taker, cover, bare, could, loss, acked, n>>
SrvAck(m, h) ==
  /\ subj[m] # "" /\ acked[m] = "" /\ acked' = [acked EXCEPT ![m] = h]
  /\ IF taker[m] > 0 THEN how[m] = h /\ UNCHANGED taker
     ELSE h = "ack" /\ taker[m] = 0 /\ bare[m] /\ taker' = [taker EXCEPT ![m] = -1]
  /\ US /\ UNCHANGED <<subj, pos, cover, bare, could, loss, how, n>>
Next == \/ \E k \in Subs : SubRet(k) \/ CancelCall(k) \/ CancelRet(k) \/ Closed(k) \/ (\E c \in Chans : SubCall(k, c)) \/ \E m \in Msgs : Read(k, m)
        \/ \E x \in Inboxes : Start(x) \/ Stop(x) \/ \E m \in Msgs, s \in Subjects : Send(m, s, x)
        \/ \E m \in Msgs, h \in {"ack", "nak"} : Settle(m, h) \/ SrvAck(m, h)
Spec == Init /\ [][Next]_vars
Bound == n <= 2
\* nothing is read twice without having been nacked nor lost; the user settles what it reads
Once == \A m \in Msgs : acked[m] = "ack" => taker[m] # 0
Wanted == \A m \in Msgs : taker[m] = -1 => bare[m]
Own == \A m \in Msgs : taker[m] > 0 => Match(chan[taker[m]], subj[m])
Ready == { k \in Subs : st[k] = "ready" }
\* when nothing moves: nothing is missing but what a cancellation has lost
Calm == /\ \A k \in Subs : st[k] \in {None, "ready"} \/ (st[k] = "over" /\ told[k])
        /\ Cardinality(open) = IF Ready = {} THEN 0 ELSE 1
        /\ \A m \in Msgs : subj[m] # "" =>
             CASE taker[m] > 0 -> how[m] # "" /\ acked[m] = how[m]
               [] taker[m] = 0 -> loss[m] \/ Ready = {}
               [] OTHER -> TRUE
=============================================================================
