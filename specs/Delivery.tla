------------------------------ MODULE Delivery ------------------------------
(***************************************************************************)
(* Subscriptions, publications and cancellations through the NATS           *)
(* controller, concurrently. What the server and the user see is visible:   *)
(* a subscription of the server (a sid) belongs to one call of Subscribe,   *)
(* what the server sends on it is read in order, once, without gap; reading *)
(* only ends once the cancellation has been asked for. A publication        *)
(* returns once the server has it.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Subs, Sids, Msgs, Chans
None == "none"
VARIABLES st,   \* st[k]: none, called, ready, canceling, over
          chan, own, \* channel and sid of k
          open, \* sids that the server has
          line, \* line[s]: what the server has sent, not read yet
          told, \* told[k]: the end of the subscription has been seen
          pub,  \* pub[m]: none, called, there (on the server), done
          sent  \* messages sent by the server
vars == <<st, chan, own, open, line, told, pub, sent>>
Init == /\ st = [k \in Subs |-> None] /\ chan = [k \in Subs |-> ""] /\ own = [k \in Subs |-> 0] /\ open = {}
        /\ line = [s \in Sids |-> <<>>] /\ told = [k \in Subs |-> FALSE] /\ pub = [m \in Msgs |-> None] /\ sent = {}
U == UNCHANGED <<pub, sent>>
SubCall(k, c) == st[k] = None /\ st' = [st EXCEPT ![k] = "called"] /\ chan' = [chan EXCEPT ![k] = c] /\ UNCHANGED <<own, open, line, told>> /\ U
\* the server may see it after the return of the call
SrvSub(s, c) == \E k \in Subs : /\ st[k] # None /\ own[k] = 0 /\ chan[k] = c /\ \A j \in Subs : own[j] # s
                                /\ own' = [own EXCEPT ![k] = s] /\ open' = open \cup {s} /\ UNCHANGED <<st, chan, line, told>> /\ U
Ready(k) == st[k] = "called" /\ st' = [st EXCEPT ![k] = "ready"] /\ UNCHANGED <<chan, own, open, line, told>> /\ U
Send(s, m) == /\ s \in open /\ line' = [line EXCEPT ![s] = Append(@, m)] /\ sent' = sent \cup {m}
              /\ UNCHANGED <<st, chan, own, open, told, pub>>
Read(k, m) == /\ own[k] # 0 /\ ~told[k] /\ line[own[k]] # <<>> /\ Head(line[own[k]]) = m
              /\ line' = [line EXCEPT ![own[k]] = Tail(@)] /\ UNCHANGED <<st, chan, own, open, told>> /\ U
CancelCall(k) == st[k] = "ready" /\ st' = [st EXCEPT ![k] = "canceling"] /\ UNCHANGED <<chan, own, open, line, told>> /\ U
\* only when the cancellation has been asked for
SrvUnsub(s) == /\ s \in open /\ \E k \in Subs : own[k] = s /\ st[k] \in {"canceling", "over"}
               /\ open' = open \ {s} /\ UNCHANGED <<st, chan, own, line, told>> /\ U
CancelRet(k) == st[k] = "canceling" /\ st' = [st EXCEPT ![k] = "over"] /\ UNCHANGED <<chan, own, open, line, told>> /\ U
Closed(k) == st[k] \in {"canceling", "over"} /\ ~told[k] /\ told' = [told EXCEPT ![k] = TRUE] /\ UNCHANGED <<st, chan, own, open, line>> /\ U
PubCall(m) == pub[m] = None /\ pub' = [pub EXCEPT ![m] = "called"] /\ UNCHANGED <<st, chan, own, open, line, told, sent>>
SrvPub(m) == pub[m] = "called" /\ pub' = [pub EXCEPT ![m] = "there"] /\ UNCHANGED <<st, chan, own, open, line, told, sent>>
PubRet(m) == pub[m] = "there" /\ pub' = [pub EXCEPT ![m] = "done"] /\ UNCHANGED <<st, chan, own, open, line, told, sent>>
Next == \/ \E k \in Subs : Ready(k) \/ CancelCall(k) \/ CancelRet(k) \/ Closed(k) \/ (\E c \in Chans : SubCall(k, c)) \/ \E m \in Msgs : Read(k, m)
        \/ \E s \in Sids : SrvUnsub(s) \/ (\E c \in Chans : SrvSub(s, c)) \/ \E m \in Msgs : m \notin sent /\ Send(s, m)
        \/ \E m \in Msgs : PubCall(m) \/ SrvPub(m) \/ PubRet(m)
Spec == Init /\ [][Next]_vars
\* an active subscription loses nothing; a sid belongs to one subscription, on its channel
Owned == \A s \in open : Cardinality({ k \in Subs : own[k] = s }) = 1
Alive == \A k \in Subs : st[k] = "ready" => ~told[k]
End == /\ \A k \in Subs : CASE st[k] = None -> TRUE
                            [] st[k] = "ready" -> own[k] \in open /\ line[own[k]] = <<>>
                            [] OTHER -> st[k] = "over" /\ told[k] /\ own[k] # 0 /\ own[k] \notin open
       /\ \A m \in Msgs : pub[m] \in {None, "done"}
=============================================================================
