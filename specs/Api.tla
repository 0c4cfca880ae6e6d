-------------------------------- MODULE Api --------------------------------
(***************************************************************************)
(* What is generated for a document: the methods of the controllers of both *)
(* sides, and what they do together when they are connected (property C11). *)
(*                                                                          *)
(* A document of asyncapi v2 has channels with one operation per direction, *)
(* one of asyncapi v3 has operations on channels, that may have a reply.    *)
(* Both mean the same thing: operations received by one side and sent by    *)
(* the other one.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxDev, Emit

None == "none"
SeqSet(s) == { s[i] : i \in 1..Len(s) }
\* --- documents of asyncapi v3 -------------------------------------------------------
\* ops is a sequence of [act, ch, msg, rep]; par tells if the first channel has a parameter, expl if the operations
\* name their messages (they have to when the channel has several ones)
OpNames == <<"one", "two-parts", "third_op">>
OpGo == <<"OneOperation", "TwoPartsOperation", "ThirdOpOperation">>
NoOp == [act |-> None, ch |-> "c1", msg |-> "A", rep |-> None]
Base3 == [ver |-> 3, ops |-> <<[act |-> "receive", ch |-> "c1", msg |-> "A", rep |-> None], NoOp, NoOp>>, par |-> FALSE, expl |-> FALSE, order |-> 0]
Reps == {None, "B", "K"}        \* message of the reply
OpForms == [act : {"receive", "send"}, ch : {"c1", "c2"}, msg : {"A", "B", "K"}, rep : Reps]
OpDev(o, b) == IF o.act = None THEN 0
               ELSE (IF b.act = None THEN 1 ELSE 0) + (IF o.act # "receive" THEN 1 ELSE 0) + (IF o.ch # "c1" THEN 1 ELSE 0)
                    + (IF o.msg # "A" THEN 1 ELSE 0) + (IF o.rep = None THEN 0 ELSE 1)
Dev3(d) == OpDev(d.ops[1], Base3.ops[1]) + OpDev(d.ops[2], NoOp) + OpDev(d.ops[3], NoOp) + (IF d.par THEN 1 ELSE 0) + (IF d.expl THEN 1 ELSE 0)
Ops3(d) == { i \in 1..3 : d.ops[i].act # None }
\* the channel of the replies is their own one, the one of other operations, or the one of the requests
Third == [act : {"receive", "send"}, ch : {"c1", "c2"}, msg : {"A"}, rep : {None, "B"}] \cup {NoOp}
Sound3(d) == /\ d.ops[2] = NoOp => d.ops[3] = NoOp
             /\ d.place # "r" => \E i \in Ops3(d) : d.ops[i].rep # None
             /\ d.place = "c2" => \A i \in Ops3(d) : d.ops[i].ch # "c2" \/ d.ops[i].rep = None
             \* the channels of the replies have no parameters
             /\ d.place = "own" => \A i \in Ops3(d) : d.ops[i].rep # None => ~(d.par /\ d.ops[i].ch = "c1")
RepChan(d, i) == IF d.place = "own" THEN d.ops[i].ch ELSE d.place
ChanMsgs(d, ch) == { d.ops[i].msg : i \in { i \in Ops3(d) : d.ops[i].ch = ch } }
                   \cup { d.ops[i].rep : i \in { i \in Ops3(d) : d.ops[i].rep # None /\ RepChan(d, i) = ch } }
Chans3(d) == { c \in {"c1", "c2", "r"} : ChanMsgs(d, c) # {} }
Template3(d, ch) == CASE ch = "c1" -> IF d.par THEN "chan.first.{id}" ELSE "chan.first" [] ch = "c2" -> "chan.second" [] ch = "r" -> "replies"

\* --- documents of asyncapi v2 -------------------------------------------------------
\* chans is a sequence of [pub, sub]: operations, [id, msg]
NoOp2 == [id |-> None, msg |-> "A"]
IdNames == <<"one", "two-parts", "third_op", "four">>
IdGo == <<"One", "TwoParts", "ThirdOp", "Four">>
ChanGo(d, i) == IF i = 1 THEN (IF d.par THEN "ChanFirstId" ELSE "ChanFirst") ELSE "ChanSecond"
Template2(d, i) == IF i = 1 THEN (IF d.par THEN "chan.first.{id}" ELSE "chan.first") ELSE "chan.second"
Forms2 == [id : {None, "no", "yes"}, msg : {"A", "B", "K"}]
Valid2(o) == o.id = None => o.msg = "A"
OpDev2(o, b) == (IF o.id # b.id THEN 1 ELSE 0) + (IF o.msg # "A" THEN 1 ELSE 0)
Dev2(d) == OpDev2(d.chans[1].pub, [id |-> "yes"]) + OpDev2(d.chans[1].sub, NoOp2) + OpDev2(d.chans[2].pub, NoOp2) + OpDev2(d.chans[2].sub, NoOp2)
           + (IF d.par THEN 1 ELSE 0) + (IF d.inline THEN 1 ELSE 0)
Sound2(d) == \A i \in 1..2 : Valid2(d.chans[i].pub) /\ Valid2(d.chans[i].sub)
Chans2(d) == { i \in 1..2 : d.chans[i].pub.id # None \/ d.chans[i].sub.id # None }
\* both operations of a channel have the same name in the generated code
Name2(d, i) == CASE d.chans[i].pub.id = "yes" -> IdGo[2 * i - 1] [] d.chans[i].sub.id = "yes" -> IdGo[2 * i] [] OTHER -> ChanGo(d, i)

\* --- meaning ----------------------------------------------------------------------
\* operations: x is the name in the generated code, to the side that receives
Filled(t) == CASE t = "chan.first.{id}" -> "chan.first.v" [] OTHER -> t
Ops(d) ==
  IF d.ver = 3
  THEN { LET o == d.ops[i] t == Template3(d, o.ch) IN
         [x |-> OpGo[i], to |-> IF o.act = "receive" THEN "App" ELSE "User", addr |-> Filled(t), par |-> Filled(t) # t, msg |-> o.msg, rep |-> o.rep,
          raddr |-> IF o.rep = None THEN "" ELSE Template3(d, RepChan(d, i))] : i \in Ops3(d) }
  ELSE UNION { { LET t == Template2(d, i) IN [x |-> Name2(d, i), to |-> to, addr |-> Filled(t), par |-> Filled(t) # t,
                         msg |-> (IF to = "App" THEN d.chans[i].pub ELSE d.chans[i].sub).msg, rep |-> None, raddr |-> ""] :
                  to \in { to \in {"App", "User"} : (IF to = "App" THEN d.chans[i].pub ELSE d.chans[i].sub).id # None } } : i \in Chans2(d) }
Addresses(d) == IF d.ver = 3 THEN { Template3(d, c) : c \in Chans3(d) } ELSE { Template2(d, i) : i \in Chans2(d) }
Other(s) == IF s = "App" THEN "User" ELSE "App"
Prep(s) == IF s = "App" THEN "As" ELSE "To"
Recv(d, s) == { o \in Ops(d) : o.to = s }
Sent(d, s) == { o \in Ops(d) : o.to # s }
Subscribe(d, o) == (IF d.ver = 3 THEN "SubscribeTo" ELSE "Subscribe") \o o.x
Unsubscribe(d, o) == (IF d.ver = 3 THEN "UnsubscribeFrom" ELSE "Unsubscribe") \o o.x
Send(d, o) == (IF d.ver = 3 THEN "Send" \o Prep(Other(o.to)) ELSE "Publish") \o o.x
Request(d, o) == "Request" \o Prep(Other(o.to)) \o o.x
ReplyTo(o) == "ReplyTo" \o o.x
SendReply(o) == "Send" \o Prep(o.to) \o "ReplyTo" \o o.x
SubAll(d) == IF d.ver = 3 THEN "SubscribeToAllChannels" ELSE "SubscribeAll"
UnsubAll(d) == IF d.ver = 3 THEN "UnsubscribeFromAllChannels" ELSE "UnsubscribeAll"
Methods(d, s) ==
  {"Close"} \cup (IF Recv(d, s) = {} THEN {} ELSE {SubAll(d), UnsubAll(d)})
  \cup { Subscribe(d, o) : o \in Recv(d, s) } \cup { Unsubscribe(d, o) : o \in Recv(d, s) } \cup { Send(d, o) : o \in Sent(d, s) }
  \cup { Request(d, o) : o \in { o \in Sent(d, s) : o.rep # None } }
  \cup UNION { { ReplyTo(o), SendReply(o) } : o \in { o \in Recv(d, s) : o.rep # None } }
  \cup (IF d.ver = 2 /\ s = "User" THEN { "WaitFor" \o o.x : o \in { o \in Recv(d, s) : o.msg = "K" } } ELSE {})
Handlers(d, s) == { o.x \o (IF d.ver = 3 THEN "Received" ELSE "") : o \in Recv(d, s) }
\* duals: what a side can send, and only it, can be received by the other one
Dual(d) == \A s \in {"App", "User"} :
  /\ Cardinality({ Send(d, o) : o \in Sent(d, s) }) = Cardinality({ Subscribe(d, o) : o \in Recv(d, Other(s)) })
  /\ Recv(d, s) \cap Sent(d, s) = {} /\ Recv(d, s) \cup Sent(d, s) = Ops(d)

\* --- both sides connected -----------------------------------------------------------
VARIABLES doc, subs, act, obs
vars == <<doc, subs, act, obs>>
view == <<doc, subs>>
Groups == {"v2", "v3"} \X (0..1) \X {FALSE, TRUE}
Chosen == "ver" \in DOMAIN doc
Init == doc \in { [group |-> g] : g \in Groups } /\ subs = {} /\ act = [op |-> ""] /\ obs = [pub |-> {}, got |-> {}, err |-> ""]
Choose == /\ ~Chosen
          /\ \/ doc.group[1] = "v3" /\ \E a \in { o \in OpForms : OpDev(o, Base3.ops[1]) <= MaxDev }, b \in { o \in OpForms \cup {NoOp} : OpDev(o, NoOp) <= MaxDev } :
                   OpDev(a, Base3.ops[1]) + OpDev(b, NoOp) <= MaxDev /\ \E c \in Third, s \in {"r", "c2", "own"} :
                   LET d == [ver |-> 3, ops |-> <<a, b, c>>, par |-> doc.group[3], expl |-> doc.group[2] = 1, place |-> s] IN
                   Dev3(d) + (IF d.place = "r" THEN 0 ELSE 1) <= MaxDev /\ Sound3(d) /\ doc' = d
             \/ doc.group[1] = "v2" /\ \E a \in { o \in Forms2 : Valid2(o) }, b \in { o \in Forms2 : Valid2(o) } :
                   OpDev2(a, [id |-> "yes"]) + OpDev2(b, NoOp2) <= MaxDev /\ \E c \in Forms2, e \in Forms2 :
                   LET d == [ver |-> 2, chans |-> <<[pub |-> a, sub |-> b], [pub |-> c, sub |-> e]>>, par |-> doc.group[3], inline |-> doc.group[2] = 1] IN
                   Dev2(d) <= MaxDev /\ Sound2(d) /\ doc' = d
          /\ UNCHANGED <<subs, act, obs>>
\* what is published is received by every subscription to the address; it only has the properties of the message that is expected
Got(addr, msg) == { [side |-> o.to, x |-> o.x, same |-> o.msg = msg] : o \in { o \in subs : o.addr = addr } }
Nothing == [pub |-> {}, got |-> {}, err |-> ""]
Step(a, o, s) == Chosen /\ act' = a /\ obs' = o /\ subs' = s /\ UNCHANGED doc
Act(op, side, m, o) == [op |-> op, side |-> side, m |-> m, x |-> o.x, par |-> o.par, msg |-> o.msg, rep |-> o.rep]
All(side, m, op) == [op |-> op, side |-> side, m |-> m, x |-> "", par |-> FALSE, msg |-> "", rep |-> None]
Sub == \E o \in Ops(doc) \ subs :
  LET taken == \E q \in subs : q.to = o.to /\ q.addr = o.addr IN
  Step(Act("sub", o.to, Subscribe(doc, o), o), IF taken THEN [Nothing EXCEPT !.err = "already"] ELSE Nothing, IF taken THEN subs ELSE subs \cup {o})
Unsub == \E o \in subs : Step(Act("unsub", o.to, Unsubscribe(doc, o), o), Nothing, subs \ {o})
Plain(s) == { o \in Recv(doc, s) : ~o.par }
SubscribeAll == \E s \in {"App", "User"} :
  /\ Recv(doc, s) # {} /\ subs \cap Recv(doc, s) = {}
  /\ Cardinality({ o.addr : o \in Plain(s) }) = Cardinality(Plain(s))
  /\ Step(All(s, SubAll(doc), "suball"), Nothing, subs \cup Plain(s))
UnsubscribeAll == \E s \in {"App", "User"} :
  Recv(doc, s) # {} /\ Step(All(s, UnsubAll(doc), "unsuball"), Nothing, subs \ Recv(doc, s))
Sending == \E o \in Ops(doc) :
  Step(Act("send", Other(o.to), Send(doc, o), o), [pub |-> {[addr |-> o.addr, msg |-> o.msg]}, got |-> Got(o.addr, o.msg), err |-> ""], subs)
\* the handler of the operation replies: the reply is received by the one that has requested (who gets its own requests when
\* they are on the channel of the replies: what they would be taken for is not specified)
Requesting == \E o \in subs : o.rep # None /\ o.raddr # o.addr /\
  Step(Act("request", Other(o.to), Request(doc, o), o),
       [pub |-> {[addr |-> o.addr, msg |-> o.msg], [addr |-> o.raddr, msg |-> o.rep]}, got |-> Got(o.addr, o.msg) \cup Got(o.raddr, o.rep), err |-> ""], subs)
Replying == \E o \in Ops(doc) : o.rep # None /\
  Step(Act("reply", o.to, SendReply(o), o), [pub |-> {[addr |-> o.raddr, msg |-> o.rep]}, got |-> Got(o.raddr, o.rep), err |-> ""], subs)
Next == Choose \/ (Chosen /\ (Sub \/ Unsub \/ SubscribeAll \/ UnsubscribeAll \/ Sending \/ Requesting \/ Replying))
Spec == Init /\ [][Next]_vars

\* a side has at most one subscription to an address, and only to what it receives
Sides == Chosen => /\ \A o, q \in subs : o.to = q.to /\ o.addr = q.addr => o = q
                   /\ Dual(doc)
\* what is sent is received by the other side if it has subscribed, and reaches nobody otherwise
Delivered == act.op = "send" =>
  \A o \in Ops(doc) : o.x = act.x /\ o.to = Other(act.side) =>
    (o \in subs <=> [side |-> o.to, x |-> o.x, same |-> TRUE] \in obs.got /\ \E q \in subs : q.to = o.to /\ q.x = o.x)
Fp(q) == { o.to \o " " \o o.x : o \in q }
ApiEmission == Chosen /\ subs = {} /\ act.op = "" /\ Emit =>
  PrintT("@@" \o ToJson([d |-> doc, addrs |-> Addresses(doc), templates |-> IF doc.ver = 3 THEN [c \in Chans3(doc) |-> Template3(doc, c)] ELSE [c \in {"1", "2"} |-> Template2(doc, IF c = "1" THEN 1 ELSE 2)],
     msgs |-> IF doc.ver = 3 THEN [c \in Chans3(doc) |-> ChanMsgs(doc, c)] ELSE [c \in {} |-> {}],
     api |-> [s \in {"App", "User"} |-> [methods |-> Methods(doc, s), handlers |-> Handlers(doc, s)]]]))
Emission == Chosen /\ Emit => PrintT("@@" \o ToJson([k |-> doc, s |-> Fp(subs), t |-> Fp(subs'), a |-> act', o |-> obs']))
=============================================================================
