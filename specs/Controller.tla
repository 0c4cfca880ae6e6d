----------------------------- MODULE Controller -----------------------------
(***************************************************************************)
(* The subscriptions of one generated controller (one side), from the      *)
(* calls of the user to the broker: properties C03, C04, C08, C10.         *)
(*                                                                         *)
(* The environment performs one action (a call of the user, a message sent *)
(* by the broker, the end of a handler that was blocked) and the system    *)
(* then runs until nothing can happen anymore. obs is all that is observed *)
(* meanwhile, by thread: the calling thread, one thread per listened       *)
(* message, one thread per transmission.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt, Json, SequencesExt

CONSTANTS Plain,       \* channels without parameters, in the order of the operations
          Param,       \* channels with parameters (i.e. template and values), in alphabetical order
          NoCorr,      \* channels whose messages have no correlation ID
          QCap,        \* capacity of the queue of the broker subscriptions
          MaxOut,      \* maximum number of outstanding messages
          MaxGen,      \* maximum number of generations of subscription alive on a channel
          Bad,         \* whether undecodable messages are sent
          Late,        \* whether messages are transmitted on canceled subscriptions
          Fails,       \* whether the broker may fail
          UseAll,      \* whether the calls on every channel are used
          Emit

Chans == {Plain[i] : i \in 1..Len(Plain)} \cup {Param[i] : i \in 1..Len(Param)}
ChanOrder == Plain \o Param
Ids == 1..(MaxOut + 1)
BadId == 90

VARIABLES live,     \* live[c]: the controller is subscribed on c
          gens,     \* gens[c]: subscriptions on c that still do something, oldest first
          fail,     \* 0: the broker works, n: the nth subscription from now fails
          ever,     \* channels that have a canceled subscription
          act, obs
vars == <<live, gens, fail, ever, act, obs>>
view == <<live, gens, fail, ever>>

Gen == [on |-> TRUE, q |-> <<>>, busy |-> 0, blocked |-> 0]

--------------------------------------------------------------------------
(* Observations *)
NoCtx == [dir |-> "", ch |-> "", msg |-> 0, corr |-> 0]
Ctx(dir, c, m, corr) == [dir |-> dir, ch |-> c, msg |-> m, corr |-> corr]
\* One message out of two has a correlation ID, when its channel has
CorrOf(c, m) == IF c \in NoCorr \/ m % 2 = 0 THEN 0 ELSE m
O(t, ev, c, m, x) == [t |-> t, ev |-> ev, ch |-> c, id |-> m, ctx |-> x]
Thread(c) == "listen " \o c
Tx(c, m) == "transmit " \o c \o " " \o ToString(m)
Caller(ev, c) == O("caller", ev, c, 0, NoCtx)
Result(r) == O("caller", "return " \o r, "", 0, NoCtx)

MsgObs(c, m) ==   \* what happens when a message starts being handled
  IF m = BadId
    THEN << O(Thread(c), "middleware", c, m, Ctx("reception", c, m, 0)),
            O(Thread(c), "error handler", c, m, Ctx("reception", c, m, 0)),
            O(Thread(c), "nak", c, m, NoCtx) >>
    ELSE << O(Thread(c), "middleware", c, m, Ctx("reception", c, m, 0)),
            O(Thread(c), "handle", c, m, Ctx("reception", c, m, CorrOf(c, m))) >>

EndObs(c, m, out) ==
  IF out = "ok" THEN << O(Thread(c), "ack", c, m, NoCtx) >>
  ELSE << O(Thread(c), "error handler", c, m, Ctx("reception", c, m, 0)), O(Thread(c), "nak", c, m, NoCtx) >>

(* A generation runs until its handler is blocked or its queue is empty:   *)
(* result is <<generation, observations>>.                                 *)
RECURSIVE Settle(_, _, _)
Settle(c, g, o) ==
  IF g.blocked # 0 /\ Len(g.q) < QCap THEN       \* room for the blocked transmission
    Settle(c, [g EXCEPT !.q = Append(@, g.blocked), !.blocked = 0],
           Append(o, O(Tx(c, g.blocked), "transmitted", c, g.blocked, NoCtx)))
  ELSE IF g.busy = 0 /\ g.q # <<>> THEN
    LET m == Head(g.q) IN
    Settle(c, [g EXCEPT !.q = Tail(@), !.busy = IF m = BadId THEN 0 ELSE m], o \o MsgObs(c, m))
  ELSE <<g, o>>

\* generations that are over are forgotten
Clean(s) == SelectSeq(s, LAMBDA g : g.on \/ g.busy # 0 \/ g.q # <<>>)

Outstanding(c) == UNION { ({gens[c][i].busy, gens[c][i].blocked} \cup ToSet(gens[c][i].q)) \ {0} : i \in 1..Len(gens[c]) }
Total == LET S == { <<c, m>> : c \in Chans, m \in Ids \cup {BadId} } IN
         Cardinality({ p \in S : p[2] \in Outstanding(p[1]) })
FreeId(c) == CHOOSE m \in Ids : m \notin Outstanding(c) /\ \A n \in Ids : n < m => n \in Outstanding(c)

--------------------------------------------------------------------------
Init == /\ live = [c \in Chans |-> FALSE]
        /\ gens = [c \in Chans |-> <<>>]
        /\ fail = 0 /\ ever = {}
        /\ act = [op |-> "init"] /\ obs = <<>>

(* Calls of the user. Each is a function of <<live, gens, fail>>, to be    *)
(* composed: result is <<live, gens, fail, ever, observations, result>>.   *)
DoSubscribe(s, c) ==
  IF s[1][c] THEN <<s[1], s[2], s[3], s[4], s[5], "already">>
  ELSE LET o == Append(s[5], O("caller", "subscribe", c, 0, Ctx("reception", c, 0, 0))) IN
       IF s[3] = 1 THEN <<s[1], s[2], 0, s[4], o, "broker">>
       ELSE << [s[1] EXCEPT ![c] = TRUE], [s[2] EXCEPT ![c] = Append(@, Gen)],
               IF s[3] > 0 THEN s[3] - 1 ELSE 0, s[4], o, "ok" >>

RECURSIVE DoSubscribeAll(_, _)
DoSubscribeAll(s, cs) ==
  IF cs = <<>> THEN s
  ELSE LET r == DoSubscribe(s, Head(cs)) IN
       IF r[6] # "ok" THEN r ELSE DoSubscribeAll(r, Tail(cs))

CancelGen(c, s) ==  \* cancel the live generation: its queue is still handled, the blocked transmission is released
  [i \in 1..Len(s) |-> IF s[i].on THEN [s[i] EXCEPT !.on = FALSE, !.blocked = 0] ELSE s[i]]
CancelObs(c, s) ==
  LET i == CHOOSE i \in 1..Len(s) : s[i].on IN
  <<Caller("cancel", c)>> \o
  (IF s[i].blocked # 0 THEN <<O(Tx(c, s[i].blocked), "transmitted", c, s[i].blocked, NoCtx)>> ELSE <<>>)

DoUnsubscribe(s, c) ==
  IF ~s[1][c] THEN <<s[1], s[2], s[3], s[4], s[5], "ok">>
  ELSE << [s[1] EXCEPT ![c] = FALSE], [s[2] EXCEPT ![c] = Clean(CancelGen(c, @))], s[3],
          s[4] \cup (IF Late THEN {c} ELSE {}), s[5] \o CancelObs(c, s[2][c]), "ok" >>

RECURSIVE DoUnsubscribeAll(_, _)
DoUnsubscribeAll(s, cs) ==
  IF cs = <<>> THEN s ELSE DoUnsubscribeAll(DoUnsubscribe(s, Head(cs)), Tail(cs))

Cur == <<live, gens, fail, ever, <<>>, "ok">>
Apply(a, r) ==
  /\ live' = r[1] /\ gens' = r[2] /\ fail' = r[3] /\ ever' = r[4]
  /\ act' = a /\ obs' = Append(r[5], Result(r[6]))

Subscribe(c) == Len(gens[c]) < MaxGen /\ Apply([op |-> "subscribe", ch |-> c], DoSubscribe(Cur, c))
Unsubscribe(c) == Apply([op |-> "unsubscribe", ch |-> c], DoUnsubscribe(Cur, c))
SubscribeAll == /\ \A i \in 1..Len(Plain) : Len(gens[Plain[i]]) < MaxGen
                /\ Apply([op |-> "subscribe all"], DoSubscribeAll(Cur, Plain))
SubscribeAllNil == Apply([op |-> "subscribe all nil"], <<live, gens, fail, ever, <<>>, "nil subscriber">>)
UnsubscribeAll == Apply([op |-> "unsubscribe all"], DoUnsubscribeAll(Cur, ChanOrder))
Close == Apply([op |-> "close"], DoUnsubscribeAll(Cur, ChanOrder))

(* The broker *)
BrokerFails(n) == /\ Fails /\ fail = 0 /\ fail' = n
                  /\ act' = [op |-> "broker fails", n |-> n] /\ obs' = <<>>
                  /\ UNCHANGED <<live, gens, ever>>

LiveIdx(c) == CHOOSE i \in 1..Len(gens[c]) : gens[c][i].on

Transmit(c, m) ==
  /\ live[c] /\ Total < MaxOut
  /\ gens[c][LiveIdx(c)].blocked = 0
  /\ m \notin Outstanding(c)
  /\ LET g == gens[c][LiveIdx(c)]
         r == IF Len(g.q) < QCap \/ g.busy = 0
                THEN LET s == Settle(c, [g EXCEPT !.q = Append(@, m)], <<>>) IN
                     <<s[1], <<O(Tx(c, m), "transmitted", c, m, NoCtx)>> \o s[2]>>
                ELSE <<[g EXCEPT !.blocked = m], <<>>>> IN
     /\ gens' = [gens EXCEPT ![c][LiveIdx(c)] = r[1]]
     /\ obs' = r[2]
  /\ act' = [op |-> "transmit", ch |-> c, id |-> m]
  /\ UNCHANGED <<live, fail, ever>>

TransmitLate(c) ==       \* on the last canceled subscription: dropped
  /\ Late /\ c \in ever
  /\ act' = [op |-> "transmit late", ch |-> c] /\ obs' = <<O("transmit late", "transmitted", c, 0, NoCtx)>>
  /\ UNCHANGED view

(* The end of a handler *)
Finish(c, i, out) ==
  /\ i <= Len(gens[c]) /\ gens[c][i].busy # 0
  /\ LET g == gens[c][i]
         s == Settle(c, [g EXCEPT !.busy = 0], EndObs(c, g.busy, out)) IN
     /\ gens' = [gens EXCEPT ![c] = Clean([@ EXCEPT ![i] = s[1]])]
     /\ obs' = s[2]
     /\ act' = [op |-> "finish", ch |-> c, id |-> g.busy, out |-> out]
  /\ UNCHANGED <<live, fail, ever>>

Next == \/ \E c \in Chans : Subscribe(c) \/ Unsubscribe(c) \/ TransmitLate(c)
        \/ UseAll /\ (SubscribeAll \/ SubscribeAllNil)
        \/ UnsubscribeAll \/ Close
        \/ \E n \in 1..2 : BrokerFails(n)
        \/ \E c \in Chans : \/ Transmit(c, FreeId(c))
                            \/ Bad /\ Transmit(c, BadId)
                            \/ \E i \in 1..MaxGen, out \in {"ok", "err"} : Finish(c, i, out)

Spec == Init /\ [][Next]_vars
Fp(v) == ToString(v)
Emission == IF Emit THEN PrintT("@@" \o ToJson([s |-> Fp(view), t |-> Fp(view'), a |-> act', o |-> obs'])) ELSE TRUE

--------------------------------------------------------------------------
(* Properties of the specification *)
TypeOK == \A c \in Chans : /\ Len(gens[c]) <= MaxGen
                           /\ \A i \in 1..Len(gens[c]) : Len(gens[c][i].q) <= QCap
OneLive == \A c \in Chans : Cardinality({i \in 1..Len(gens[c]) : gens[c][i].on}) = (IF live[c] THEN 1 ELSE 0)
\* nothing is left waiting without a reason
NoIdle == \A c \in Chans : \A i \in 1..Len(gens[c]) :
            /\ gens[c][i].q # <<>> => gens[c][i].busy # 0
            /\ gens[c][i].blocked # 0 => Len(gens[c][i].q) = QCap /\ gens[c][i].on
\* a message is in one place only
Unique == \A c \in Chans : \A i, j \in 1..Len(gens[c]) :
            LET S(k) == <<gens[c][k].busy, gens[c][k].blocked>> \o gens[c][k].q IN
            \A x \in 1..Len(S(i)), y \in 1..Len(S(j)) : (S(i)[x] = S(j)[y] /\ S(i)[x] # 0) => (i = j /\ x = y)
\* closing or unsubscribing from everything leaves no subscription
Closed == act.op \in {"close", "unsubscribe all"} => \A c \in Chans : ~live[c]
Invs == TypeOK /\ OneLive /\ NoIdle /\ Unique /\ Closed
=============================================================================
