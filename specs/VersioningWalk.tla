--------------------------- MODULE VersioningWalk ---------------------------
(***************************************************************************)
(* The versioning wrapper, driven: the environment does one action, then   *)
(* the system runs until it is stable. One broker subscription per channel, *)
(* opened with the first version and canceled with the last one; messages  *)
(* are routed by the version of their header. The transitions are replayed  *)
(* on the real wrapper, over a fake broker.                                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Chans, Vers, Kinds,
          Default,   \* default version ("": none)
          QCap,      \* capacity of the queue of a version
          MaxOut,    \* messages that are not read yet, floods excepted
          Flood,     \* the queue of a version can be filled
          Slow,      \* the clean up of the broker subscription can take long
          Fails,     \* the broker can fail
          Emit

VARIABLES live, vq, old, hold, bq, busy, pend, act, obs
\* live[c, v]: subscribed; vq: messages to be read; old: those of the previous, canceled, subscription ("gone": closed)
\* hold: message blocked because the queue of its version is full; bq: messages behind it
\* busy: the broker subscription of this channel is being canceled; pend: subscriptions that wait for it
vars == <<live, vq, old, hold, bq, busy, pend, act, obs>>
view == <<live, vq, old, hold, bq, busy, pend>>

Keys == Chans \X Vers
Gone == <<[v |-> "", id |-> "gone"]>>
NoMsg == [v |-> "", id |-> ""]
Open(c) == \E v \in Vers : live[<<c, v>>]
Name(k) == k[1] \o "/" \o k[2]
O(t, ev, x) == [t |-> t, ev |-> ev, id |-> x]
Ids(s) == { s[i].id : i \in 1..Len(s) }

\* The version a message is meant for
Version(kind) == CASE kind \in {"v1", "v2"} -> kind
                   [] kind = "unknown" -> "v9"
                   [] OTHER -> Default

Init == /\ live = [k \in Keys |-> FALSE] /\ vq = [k \in Keys |-> <<>>] /\ old = [k \in Keys |-> Gone]
        /\ hold = [c \in Chans |-> NoMsg] /\ bq = [c \in Chans |-> <<>>] /\ busy = "" /\ pend = ""
        /\ act = [op |-> "init"] /\ obs = <<>>

\* The messages of b, routed by the listener of c in the state [q, h, b]
RECURSIVE Route(_, _, _)
Route(c, lv, s) ==
  IF s.h # NoMsg \/ s.b = <<>> THEN s
  ELSE LET m == Head(s.b) k == <<c, m.v>> r == [s EXCEPT !.b = Tail(s.b)] IN
       IF k \notin Keys \/ ~lv[k] THEN Route(c, lv, r)                      \* nobody for it: dropped
       ELSE IF Len(s.q[k]) < QCap THEN Route(c, lv, [r EXCEPT !.q[k] = Append(s.q[k], m)])
       ELSE [r EXCEPT !.h = m]
Set(c, s) == vq' = s.q /\ hold' = [hold EXCEPT ![c] = s.h] /\ bq' = [bq EXCEPT ![c] = s.b]

Result(k, x) == O("subscribe " \o Name(k), x, "")
Subscribe(k, fails) ==
  /\ fails => Fails
  /\ act' = [op |-> "subscribe", c |-> k[1], v |-> k[2], fails |-> fails]
  /\ UNCHANGED <<hold, bq, busy, old>>
  /\ CASE busy = k[1] /\ pend = "" -> pend' = k[2] /\ obs' = <<>> /\ ~fails /\ UNCHANGED <<live, vq>>
       [] busy # "" -> FALSE
       [] live[k] -> obs' = <<Result(k, "already subscribed")>> /\ UNCHANGED <<live, vq, pend>>
       [] ~Open(k[1]) /\ fails -> /\ obs' = <<O("broker", "subscribe", k[1]), Result(k, "broker error")>>
                                  /\ UNCHANGED <<live, vq, pend>>
       [] OTHER -> /\ live' = [live EXCEPT ![k] = TRUE] /\ UNCHANGED <<pend, vq>>
                   /\ obs' = (IF Open(k[1]) THEN <<>> ELSE <<O("broker", "subscribe", k[1])>>) \o <<Result(k, "ok")>>
NoVersion(c, how) ==
  /\ busy = "" /\ act' = [op |-> "no version", c |-> c, v |-> how]
  /\ obs' = <<O("subscribe " \o c \o "/", "no version", "")>> /\ UNCHANGED view

Outstanding == UNION ({ Ids(vq[k]) : k \in Keys } \cup { Ids(old[k]) : k \in { k \in Keys : old[k] # Gone } }
                      \cup { {hold[c].id} : c \in Chans } \cup { Ids(bq[c]) : c \in Chans }) \ {"", "f"}
AllIds == <<"1", "2", "3", "4">>
FreeId == AllIds[CHOOSE i \in 1..Len(AllIds) : AllIds[i] \notin Outstanding /\ \A j \in 1..(i - 1) : AllIds[j] \in Outstanding]

Transmit(c, kind) ==
  /\ Open(c) /\ busy # c /\ Cardinality(Outstanding) < MaxOut /\ Len(bq[c]) < 2
  /\ act' = [op |-> "transmit", c |-> c, kind |-> kind, id |-> FreeId]
  /\ Set(c, Route(c, live, [q |-> vq, h |-> hold[c], b |-> Append(bq[c], [v |-> Version(kind), id |-> FreeId])]))
  /\ obs' = <<O("transmit", "return", c)>> /\ UNCHANGED <<live, old, busy, pend>>

\* as many messages as needed to block the listener, and one more
Flooding(k) ==
  /\ Flood /\ live[k] /\ vq[k] = <<>> /\ hold[k[1]] = NoMsg /\ busy # k[1]
  /\ LET f == [v |-> k[2], id |-> "f"] c == k[1] IN
     /\ act' = [op |-> "flood", c |-> c, kind |-> k[2], id |-> "f", n |-> QCap + 2]
     /\ Set(c, Route(c, live, [q |-> vq, h |-> hold[c], b |-> [i \in 1..(QCap + 2) |-> f]]))
  /\ obs' = <<O("transmit", "return", k[1])>> /\ UNCHANGED <<live, old, busy, pend>>

\* the reader of a version takes a message (or all of them, after a flood)
Taken(k, i) == O("read " \o Name(k), "message", vq[k][i].id)
Read(k, settle) ==
  /\ live[k] /\ vq[k] # <<>> /\ busy # k[1]
  /\ LET c == k[1]
         own == hold[c].v = k[2] /\ hold[c] # NoMsg
         n == IF vq[k][1].id = "f" /\ ~own THEN Len(vq[k]) ELSE 1
         rest == SubSeq(vq[k], n + 1, Len(vq[k]))
     IN /\ act' = [op |-> "read", c |-> c, v |-> k[2], settle |-> settle, n |-> n]
        /\ Set(c, Route(c, live, [q |-> [vq EXCEPT ![k] = IF own THEN Append(rest, hold[c]) ELSE rest],
                                  h |-> IF own THEN NoMsg ELSE hold[c], b |-> bq[c]]))
        /\ obs' = [i \in 1..n |-> Taken(k, i)]
  /\ UNCHANGED <<live, old, busy, pend>>
\* the reader of the previous subscription gets what was accepted, then the end
ReadOld(k) ==
  /\ old[k] # Gone
  /\ LET n == IF old[k] = <<>> THEN 1 ELSE IF old[k][1].id = "f" THEN Len(old[k]) ELSE 1 IN
     /\ act' = [op |-> "read old", c |-> k[1], v |-> k[2], settle |-> "ack", n |-> n]
     /\ IF old[k] = <<>> THEN old' = [old EXCEPT ![k] = Gone] /\ obs' = <<O("read " \o Name(k), "closed", "")>>
        ELSE old' = [old EXCEPT ![k] = SubSeq(old[k], n + 1, Len(old[k]))]
             /\ obs' = [i \in 1..n |-> O("read " \o Name(k), "message", old[k][i].id)]
  /\ UNCHANGED <<live, vq, hold, bq, busy, pend>>

Canceled(k) == O("cancel " \o Name(k), "return", "")
Cancel(k, slow) ==
  /\ live[k] /\ old[k] = Gone /\ busy = "" /\ (slow => Slow)
  /\ LET c == k[1]
         lv == [live EXCEPT ![k] = FALSE]
         last == \A v \in Vers : ~lv[<<c, v>>]
         h == IF hold[c].v = k[2] THEN NoMsg ELSE hold[c]
     IN /\ act' = [op |-> "cancel", c |-> c, v |-> k[2], slow |-> slow]
        /\ slow => last
        /\ live' = lv /\ old' = [old EXCEPT ![k] = vq[k]]
        /\ Set(c, Route(c, lv, [q |-> [vq EXCEPT ![k] = <<>>], h |-> h, b |-> bq[c]]))
        /\ obs' = (IF last THEN <<O("broker", "cancel", c)>> ELSE <<>>) \o (IF slow THEN <<>> ELSE <<Canceled(k)>>)
        /\ busy' = IF slow THEN c ELSE ""
        /\ UNCHANGED pend
\* canceling again does nothing, even if the version is subscribed again
CancelOld(k) ==
  /\ old[k] # Gone /\ busy = "" /\ act' = [op |-> "cancel old", c |-> k[1], v |-> k[2]]
  /\ obs' = <<Canceled(k)>> /\ UNCHANGED view
\* the clean up of the broker subscription ends
Release ==
  /\ busy # "" /\ act' = [op |-> "release", c |-> busy]
  /\ LET k == <<busy, CHOOSE v \in Vers : old[<<busy, v>>] # Gone>> p == <<busy, pend>> IN
     /\ obs' = <<Canceled(k)>> \o (IF pend = "" THEN <<>> ELSE <<O("broker", "subscribe", busy), Result(p, "ok")>>)
     /\ live' = IF pend = "" THEN live ELSE [live EXCEPT ![p] = TRUE]
  /\ busy' = "" /\ pend' = "" /\ UNCHANGED <<vq, old, hold, bq>>

Next == \/ \E k \in Keys, b \in BOOLEAN : Subscribe(k, b) \/ (Cancel(k, b) /\ (b => \A v \in Vers : old[<<k[1], v>>] = Gone))
        \/ \E k \in Keys : ReadOld(k) \/ CancelOld(k) \/ Flooding(k)
        \/ \E k \in Keys, s \in {"ack", "nak", "none"} : Read(k, s)
        \/ \E c \in Chans, kind \in Kinds : Transmit(c, kind)
        \/ \E c \in Chans, how \in {"absent", "empty"} : NoVersion(c, how)
        \/ Release
\* while a clean up takes long, the subscription being canceled is not read
Spec == Init /\ [][Next /\ (busy # "" => act'.op \in {"subscribe", "transmit", "read", "flood", "release"})]_vars
Emission == IF Emit THEN PrintT("@@" \o ToJson([s |-> ToString(view), t |-> ToString(view'), a |-> act', o |-> obs'])) ELSE TRUE

--------------------------------------------------------------------------
\* Messages only wait for their own version, and none waits without need
Own == \A k \in Keys : \A i \in 1..Len(vq[k]) : vq[k][i].v = k[2] /\ live[k]
Blocked == \A c \in Chans : /\ hold[c] # NoMsg => Len(vq[<<c, hold[c].v>>]) = QCap
                            /\ bq[c] # <<>> => hold[c] # NoMsg
Closed == \A c \in Chans : ~Open(c) => hold[c] = NoMsg /\ bq[c] = <<>>
Invs == Own /\ Blocked /\ Closed
=============================================================================
