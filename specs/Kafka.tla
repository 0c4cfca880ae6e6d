-------------------------------- MODULE Kafka --------------------------------
(***************************************************************************)
(* The Kafka controller against a broker (property C23): what is written to *)
(* topics, what subscriptions read, in which order, and which offsets are   *)
(* committed. Topics have one partition; a message is known by its place in *)
(* it. A slot is a subscription: queue[i] are the messages that it has got, *)
(* out[i] those that the user has read and not settled.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots, Chans, Ctls, Opts, MaxLog, QMax, Emit

None == "none"
\* configuration of the controllers: group (none by default), and automatic commit or not
C(g, auto) == [g |-> g, auto |-> auto]
Config == [alone |-> <<C("", TRUE), C("", FALSE)>>, manual |-> <<C("g", FALSE), C("h", FALSE)>>, shared |-> <<C("g", FALSE), C("g", TRUE)>>,
           mixed |-> <<C("g", TRUE), C("", FALSE)>>, auto |-> <<C("g", TRUE), C("h", FALSE)>>]
\* contents of messages: headers and what the payload is
Contents ==
  [text |-> [h |-> <<>>, p |-> "text"], empty |-> [h |-> <<>>, p |-> "empty"], one |-> [h |-> <<<<"key", "value">>>>, p |-> "text"],
   headonly |-> [h |-> <<<<"key", "">>>>, p |-> "empty"],
   cases |-> [h |-> <<<<"key", "lower">>, <<"Key", "upper">>, <<"KEY", "">>, <<"", "no key">>>>, p |-> "binary"],
   odd |-> [h |-> <<<<"a b", "x: y\n z ">>, <<"~", "~,;=">>, <<"content-type", " a b">>, <<"X-Long_1.2", "0123456789012345678901234567890123456789">>>>, p |-> "protocol"],
   big |-> [h |-> <<<<"correlationID", "7">>>>, p |-> "big"]]

VARIABLES opt,  \* configuration
          log,  \* log[ch]: number of messages of the topic, or -1 when it does not exist
          done, \* done[g][ch]: messages that have been committed by the group
          slot, queue, out, act, obs
vars == <<opt, log, done, slot, queue, out, act, obs>>
view == <<opt, log, done, slot, queue, out>>
NoSlot == [s |-> None, c |-> 0, ch |-> ""]
Groups == {"g", "h"}
G(c) == Config[opt][c].g
Auto(c) == Config[opt][c].auto
NoObs == [made |-> {}, sent |-> 0, commits |-> {}, left |-> {}, got |-> <<>>, read |-> 0]
Init == /\ opt \in Opts /\ log = [ch \in Chans |-> -1] /\ done = [g \in Groups |-> [ch \in Chans |-> 0]]
        /\ slot = [i \in Slots |-> NoSlot] /\ queue = [i \in Slots |-> <<>>] /\ out = [i \in Slots |-> <<>>]
        /\ act = [op |-> ""] /\ obs = NoObs
A(op, c, ch, i, n, k) == [op |-> op, c |-> c, ch |-> ch, i |-> i, n |-> n, k |-> k]
IsOpen(sl, i) == sl[i].s = "open"
Open(sl) == { i \in Slots : IsOpen(sl, i) }
Grp(sl, i) == G(sl[i].c)
Range(a, b) == TLCEval([j \in 1..(b - a) |-> a + j]) \* after a, until b
SeqSet(s) == { s[i] : i \in 1..Len(s) }
Max0(n) == IF n < 0 THEN 0 ELSE n

\* what subscriptions get: add[i] is given to slot i; those with automatic commit have it committed
Deliver(sl, lg, add, base) ==
  /\ queue' = [i \in Slots |-> queue[i] \o add[i]]
  /\ LET auto == { i \in Open(sl) : Auto(sl[i].c) /\ Grp(sl, i) # "" /\ add[i] # <<>> } IN
     /\ done' = [g \in Groups |-> [ch \in Chans |->
          IF \E i \in auto : Grp(sl, i) = g /\ sl[i].ch = ch THEN lg[ch] ELSE done[g][ch]]]
     /\ obs' = [base EXCEPT !.got = add,
                !.commits = UNION { { [g |-> Grp(sl, i), ch |-> sl[i].ch, n |-> m] : m \in SeqSet(add[i]) } : i \in auto }]
\* the members of a group begin again after what has been committed when there is a new one, or one less
Again(sl, lg, grp, i) == IF grp # "" /\ IsOpen(sl, i) /\ Grp(sl, i) = grp THEN Range(done[grp][sl[i].ch], Max0(lg[sl[i].ch])) ELSE <<>>
Fits(add) == \A i \in Slots : Len(queue[i]) + Len(add[i]) <= QMax

Subscribe(c, ch) ==
  /\ \E i \in Slots : slot[i].s = None
  /\ \A i \in Open(slot) : G(c) # "" => ~(Grp(slot, i) = G(c) /\ slot[i].ch = ch)
  /\ LET i == CHOOSE i \in Slots : slot[i].s = None /\ \A j \in Slots : slot[j].s = None => i <= j
         lg == [log EXCEPT ![ch] = Max0(@)]
         sl == [slot EXCEPT ![i] = [s |-> "open", c |-> c, ch |-> ch]]
         \* without group: everything
         add == [j \in Slots |-> IF j = i /\ G(c) = "" THEN Range(0, lg[ch]) ELSE Again(sl, lg, G(c), j)] IN
     /\ Fits(add) /\ slot' = sl /\ log' = lg /\ Deliver(sl, lg, add, [NoObs EXCEPT !.made = IF log[ch] < 0 THEN {ch} ELSE {}])
     /\ act' = A("sub", c, ch, i, 0, "")
  /\ UNCHANGED <<opt, out>>
Appended(ch) == [log EXCEPT ![ch] = Max0(@) + 1]
Everybody(ch) == [j \in Slots |-> IF IsOpen(slot, j) /\ slot[j].ch = ch THEN <<Appended(ch)[ch]>> ELSE <<>>]
Publish(c, ch) ==
  /\ log[ch] < MaxLog /\ Fits(Everybody(ch)) /\ log' = Appended(ch)
  /\ Deliver(slot, log', Everybody(ch), [NoObs EXCEPT !.made = IF log[ch] < 0 THEN {ch} ELSE {}, !.sent = log'[ch]])
  /\ act' = A("pub", c, ch, 0, log'[ch], "") /\ UNCHANGED <<opt, slot, out>>
\* somebody else writes to the topic
Foreign(ch) ==
  /\ log[ch] \in 0..(MaxLog - 1) /\ Fits(Everybody(ch)) /\ log' = Appended(ch)
  /\ Deliver(slot, log', Everybody(ch), NoObs) /\ act' = A("raw", 0, ch, 0, log'[ch], "") /\ UNCHANGED <<opt, slot, out>>
Read(i) == /\ queue[i] # <<>> /\ Len(out[i]) < QMax /\ queue' = [queue EXCEPT ![i] = Tail(@)] /\ out' = [out EXCEPT ![i] = Append(@, Head(queue[i]))]
           /\ obs' = [NoObs EXCEPT !.read = Head(queue[i])] /\ act' = A("read", 0, slot[i].ch, i, 0, "") /\ UNCHANGED <<opt, log, done, slot>>
ReadClosed(i) == /\ slot[i].s = "over" /\ queue[i] = <<>> /\ slot' = [slot EXCEPT ![i] = NoSlot] /\ out' = [out EXCEPT ![i] = <<>>]
                 /\ obs' = [NoObs EXCEPT !.read = -1] /\ act' = A("read", 0, slot[i].ch, i, 0, "") /\ UNCHANGED <<opt, log, done, queue>>
\* the n-th message that the user holds is settled: this commits its offset, with manual commit and a group, until the reader is closed
Settle(i, n, k) ==
  LET g == Grp(slot, i) m == out[i][n] ch == slot[i].ch yes == slot[i].s = "open" /\ g # "" /\ ~Auto(slot[i].c) IN
  /\ out' = [out EXCEPT ![i] = SubSeq(@, 1, n - 1) \o SubSeq(@, n + 1, Len(@))]
  /\ done' = IF yes THEN [done EXCEPT ![g][ch] = m] ELSE done
  /\ obs' = [NoObs EXCEPT !.commits = IF yes THEN {[g |-> g, ch |-> ch, n |-> m]} ELSE {}]
  /\ act' = A("settle", 0, ch, i, n, k) /\ UNCHANGED <<opt, log, slot, queue>>
Cancel(i) ==
  /\ IsOpen(slot, i)
  /\ LET g == Grp(slot, i) sl == [slot EXCEPT ![i].s = "over"]
         add == [j \in Slots |-> Again(sl, log, g, j)] IN
     /\ Fits(add) /\ slot' = sl /\ Deliver(sl, log, add, [NoObs EXCEPT !.left = IF g = "" THEN {} ELSE {g}])
  /\ act' = A("cancel", 0, slot[i].ch, i, 0, "") /\ UNCHANGED <<opt, log, out>>
Next == \/ \E c \in Ctls, ch \in Chans : Subscribe(c, ch) \/ Publish(c, ch)
        \/ \E ch \in Chans : Foreign(ch)
        \/ \E i \in Slots : Read(i) \/ ReadClosed(i) \/ Cancel(i) \/ \E n \in 1..Len(out[i]), k \in {"ack", "nak"} : Settle(i, n, k)
Spec == Init /\ [][Next]_vars
Only == Init /\ [][FALSE]_vars

\* offsets are committed by settling messages, or because there are messages with automatic commit
Commits == [][\A x \in obs'.commits : (act'.op = "settle" /\ ~Auto(slot[act'.i].c))
                 \/ \E i \in Slots : slot'[i].s = "open" /\ Auto(slot'[i].c) /\ x.n \in SeqSet(obs'.got[i])]_vars
\* messages are got in order from a place in the topic: none is skipped
Ordered == \A i \in Slots : \A j \in 1..(Len(queue[i]) - 1) : queue[i][j + 1] <= queue[i][j] + 1
Table == act.op = "" /\ Emit => PrintT("@@" \o ToJson([contents |-> Contents, ctls |-> Config[opt], opt |-> opt]))
Fp(l, d, s, q, o) == [l |-> l, d |-> d, s |-> s, q |-> q, o |-> o]
Readers(sl) == [ch \in Chans |-> Cardinality({ i \in Open(sl) : sl[i].ch = ch })]
Members(sl) == [g \in Groups |-> Cardinality({ i \in Open(sl) : Grp(sl, i) = g })]
Emission == Emit => PrintT("@@" \o ToJson([s |-> Fp(log, done, slot, queue, out), t |-> Fp(log', done', slot', queue', out'),
                     a |-> act', o |-> obs' @@ [readers |-> Readers(slot'), members |-> Members(slot')], opt |-> opt]))
=============================================================================
