-------------------------------- MODULE Nats --------------------------------
(***************************************************************************)
(* The NATS controller against a NATS server (property C22): what the       *)
(* server receives, which subscriptions get each message, and what the user *)
(* reads on them. Two controllers share the server, with a queue group each *)
(* (none by default). A slot is a subscription of a controller; queue[i]    *)
(* are the messages it got that have not been read.                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, QMax, Kinds, Raws, Chans, Ctls, Opts, MaxSubs, Emit

None == "none"
\* queue groups of the controllers, given as options or not
OptSets == [plain |-> <<"", "">>, shared |-> <<"q", "q">>, mixed |-> <<"q", "">>, distinct |-> <<"q", "p">>]
\* messages published by a controller: headers (key, value), and what the payload is
Content ==
  [text |-> [h |-> <<>>, p |-> "text"], empty |-> [h |-> <<>>, p |-> "empty"], one |-> [h |-> <<<<"key", "value">>>>, p |-> "text"],
   headonly |-> [h |-> <<<<"key", "value">>>>, p |-> "empty"],
   cases |-> [h |-> <<<<"key", "lower">>, <<"Key", "upper">>, <<"KEY", "">>>>, p |-> "binary"],
   odd |-> [h |-> <<<<"a", "x: y">>, <<"b", "~,;=">>, <<"content-type", "a b">>, <<"X-Long_1.2", "0123456789012345678901234567890123456789">>>>, p |-> "protocol"],
   big |-> [h |-> <<<<"correlationID", "7">>>>, p |-> "big"]]
\* messages published by somebody else: header lines, possibly several ones for a key
RawContent ==
  [bare |-> [h |-> <<>>, p |-> "empty"], many |-> [h |-> <<<<"k", "v1">>, <<"k", "v2">>, <<"l", "w">>>>, p |-> "text"],
   blank |-> [h |-> <<<<"k", "">>, <<"k", "v">>>>, p |-> "binary"], mixed |-> [h |-> <<<<"k", "1">>, <<"K", "2">>, <<"k", "3">>>>, p |-> "protocol"]]
IsRaw(k) == k \in DOMAIN RawContent
Lines(k) == IF IsRaw(k) THEN RawContent[k].h ELSE Content[k].h
Payload(k) == IF IsRaw(k) THEN RawContent[k].p ELSE Content[k].p
\* the user gets the first value of each key
Seen(k) == LET l == Lines(k) first == { i \in 1..Len(l) : \A j \in 1..(i - 1) : l[j][1] # l[i][1] } IN
           { <<l[i][1], l[i][2]>> : i \in first }

VARIABLES opt,   \* options of the controllers
          slot,  \* slot[i]: state of the subscription (none, open, over), controller, channel
          queue, \* queue[i]: messages it got, unread
          alive, \* alive[c]: the controller has not been closed
          act, obs
vars == <<opt, slot, queue, alive, act, obs>>
view == <<opt, slot, queue, alive>>
Group(c) == OptSets[opt][c]
NoSlot == [s |-> None, c |-> 0, ch |-> ""]
NoObs == [srv |-> {}, to |-> {}, ok |-> TRUE, read |-> ""]
Init == /\ opt \in Opts /\ slot = [i \in Slots |-> NoSlot] /\ queue = [i \in Slots |-> <<>>] /\ alive = [c \in Ctls |-> TRUE]
        /\ act = [op |-> ""] /\ obs = NoObs
A(op, c, ch, i, k, to) == [op |-> op, c |-> c, ch |-> ch, i |-> i, k |-> k, pick |-> to]
Ev(kind, c, ch, q) == [kind |-> kind, c |-> c, ch |-> ch, q |-> q]
Used == { i \in Slots : slot[i].s # None }
Open(i) == slot[i].s = "open" /\ alive[slot[i].c]
On(ch) == { i \in Slots : Open(i) /\ slot[i].ch = ch }
\* one member of each queue group, and everybody without group
Picks(ch) == { p \in SUBSET On(ch) :
  /\ \A i \in On(ch) : Group(slot[i].c) = "" => i \in p
  /\ \A i \in On(ch) : Group(slot[i].c) # "" => Cardinality({ j \in p : Group(slot[j].c) = Group(slot[i].c) }) = 1 }

Subscribe(c, ch) ==
  /\ Cardinality(Used) < MaxSubs
  /\ LET i == CHOOSE i \in Slots : slot[i].s = None /\ \A j \in Slots : slot[j].s = None => i <= j IN
     /\ slot' = IF alive[c] THEN [slot EXCEPT ![i] = [s |-> "open", c |-> c, ch |-> ch]] ELSE slot
     /\ act' = A("sub", c, ch, i, "", {})
     /\ obs' = [NoObs EXCEPT !.ok = alive[c], !.srv = IF alive[c] THEN {Ev("sub", c, ch, Group(c))} ELSE {}]
  /\ UNCHANGED <<opt, queue, alive>>
Give(ch, k, to) == queue' = [i \in Slots |-> IF i \in to THEN Append(queue[i], k) ELSE queue[i]]
Room(ch) == \A i \in On(ch) : Len(queue[i]) < QMax
Publish(c, ch, k) ==
  /\ Room(ch) \/ ~alive[c]
  /\ \E to \in Picks(ch) :
     IF alive[c] THEN /\ Give(ch, k, to) /\ act' = A("pub", c, ch, 0, k, to)
                      /\ obs' = [NoObs EXCEPT !.srv = {Ev("pub", c, ch, "")}, !.to = to]
     ELSE UNCHANGED queue /\ act' = A("pub", c, ch, 0, k, {}) /\ obs' = [NoObs EXCEPT !.ok = FALSE]
  /\ UNCHANGED <<opt, slot, alive>>
Raw(ch, k) ==
  /\ Room(ch) /\ On(ch) # {}
  /\ \E to \in Picks(ch) : Give(ch, k, to) /\ act' = A("raw", 0, ch, 0, k, to) /\ obs' = [NoObs EXCEPT !.to = to]
  /\ UNCHANGED <<opt, slot, alive>>
\* messages that were received before the cancellation can still be read
Read(i) == /\ queue[i] # <<>> /\ queue' = [queue EXCEPT ![i] = Tail(@)]
           /\ act' = A("read", 0, "", i, "", {}) /\ obs' = [NoObs EXCEPT !.read = Head(queue[i])]
           /\ UNCHANGED <<opt, slot, alive>>
ReadClosed(i) == /\ slot[i].s = "over" /\ queue[i] = <<>> /\ slot' = [slot EXCEPT ![i] = NoSlot]
                 /\ act' = A("read", 0, "", i, "", {}) /\ obs' = [NoObs EXCEPT !.read = "closed"]
                 /\ UNCHANGED <<opt, queue, alive>>
Cancel(i) == /\ slot[i].s = "open" /\ slot' = [slot EXCEPT ![i].s = "over"]
             /\ act' = A("cancel", 0, "", i, "", {})
             /\ obs' = [NoObs EXCEPT !.srv = IF Open(i) THEN {Ev("unsub", slot[i].c, slot[i].ch, Group(slot[i].c))} ELSE {}]
             /\ UNCHANGED <<opt, queue, alive>>
Close(c) == /\ alive[c] /\ alive' = [alive EXCEPT ![c] = FALSE] /\ act' = A("close", c, "", 0, "", {})
            /\ obs' = [NoObs EXCEPT !.srv = {Ev("end", c, "", "")}] /\ UNCHANGED <<opt, slot, queue>>
Next == \/ \E c \in Ctls, ch \in Chans : Subscribe(c, ch) \/ \E k \in Kinds : Publish(c, ch, k)
        \/ \E ch \in Chans, k \in Raws : Raw(ch, k)
        \/ \E i \in Slots : Read(i) \/ ReadClosed(i) \/ Cancel(i)
        \/ \E c \in Ctls : Close(c)
Spec == Init /\ [][Next]_vars
Only == Init /\ [][FALSE]_vars

\* a message only reaches open subscriptions to its channel: all of those without group, and one of each group
Delivered == act.op \in {"pub", "raw"} /\ obs.ok =>
  /\ \A i \in obs.to : Open(i) /\ slot[i].ch = act.ch
  /\ \A i \in On(act.ch) : Group(slot[i].c) = "" => i \in obs.to
  /\ \A i \in On(act.ch) : \E j \in obs.to : Group(slot[j].c) = Group(slot[i].c)
Bounded == \A i \in Slots : Len(queue[i]) <= QMax
Empty == \A i \in Slots : slot[i].s = None => queue[i] = <<>>
Contents == [k \in Kinds \cup Raws |-> [lines |-> Lines(k), seen |-> Seen(k), payload |-> Payload(k)]]
Fp(o, s, q, a) == [o |-> o, s |-> s, q |-> q, a |-> a]
Table == act.op = "" /\ Emit => PrintT("@@" \o ToJson([contents |-> Contents, groups |-> [c \in Ctls |-> Group(c)], opt |-> opt]))
Emission == Emit => PrintT("@@" \o ToJson([s |-> Fp(opt, slot, queue, alive), t |-> Fp(opt, slot', queue', alive'), a |-> act', o |-> obs', opt |-> opt]))
=============================================================================
