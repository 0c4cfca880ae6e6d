------------------------------ MODULE Request ------------------------------
(***************************************************************************)
(* Requests made through one generated controller, concurrently: properties *)
(* C06, C07 and the part of C08 about awaited replies. In asyncapi v3 they  *)
(* are the Request... methods, in v2 the WaitFor... methods.               *)
(*                                                                         *)
(* As in Controller, the environment does one action and the system then   *)
(* runs until nothing can happen: the broker blocks every publication until *)
(* "publish returns", so that replies may come before, and a middleware     *)
(* may block on an awaited reply until "release".                          *)
(*                                                                         *)
(* A reply m has a kind (does it match, see Matches) and tells what the    *)
(* middleware does with it.                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Reqs,      \* concurrent requests
          Corr,      \* whether the messages have a correlation ID
          Kinds,     \* replies: own, other, none (no ID), stale (ID of the previous one), near (similar ID), bad (undecodable)
          Mws,       \* middleware on the awaited reply: ok, mod (changes it), err, break (makes it undecodable), block
          Faults,    \* of the start: none, sub (subscription), addr (no reply address), expired (context)
          QCap,      \* queue of the reply subscription
          Emit

VARIABLES st,        \* st[r]: idle, pub (publishing), wait, mw (blocked in the middleware)
          q,         \* replies not consumed yet
          done,      \* done[r]: its context is done
          closed,    \* closed[r]: the broker has closed its reply subscription
          old,       \* old[r]: it has already been made once
          late,      \* late[r]: it has a canceled reply subscription
          cur,       \* reply being handled by the blocked middleware
          act, obs
vars == <<st, q, done, closed, old, late, cur, act, obs>>
view == <<st, q, done, closed, old, late, cur>>

Ids == 1..(QCap + 1)
NoCtx == [dir |-> "", ch |-> "", msg |-> 0, corr |-> FALSE]
O(r, ev, id, x) == [t |-> "req " \o ToString(r), ev |-> ev, id |-> id, ctx |-> x]
Tx(r, id) == [t |-> "transmit " \o ToString(r), ev |-> "transmitted", id |-> id, ctx |-> NoCtx]
Pub(r, ev) == O(r, ev, 0, [dir |-> "publication", ch |-> "request", msg |-> 100, corr |-> Corr])
Sub(r) == O(r, "subscribe", 0, [dir |-> "wait-for", ch |-> "reply", msg |-> 0, corr |-> FALSE])
MwO(r, m) == O(r, "middleware", m.id, [dir |-> "wait-for", ch |-> "reply", msg |-> m.id, corr |-> Corr])

\* With an expired context, nothing waits for the end of the clean up
CancelO(r, d, c) == IF c THEN <<>>
                    ELSE << [O(r, "cancel", 0, NoCtx) EXCEPT !.t = (IF d THEN "cleanup " ELSE "req ") \o ToString(r)] >>
Return(r, res, id) == << O(r, "return " \o res, id, NoCtx) >>
Matches(m) == ~Corr \/ m.kind = "own"

\* Result of the awaited reply, after the middleware
ReplyResult(m) == CASE m.mw = "err" -> "middleware error"
                    [] m.mw = "break" \/ m.kind = "bad" -> "decode error"
                    [] m.mw = "mod" -> "modified reply"
                    [] OTHER -> "reply"

\* The request consumes its queue: <<state, queue, cur, observations>>
RECURSIVE Consume(_, _, _, _, _)
Consume(r, s, d, c, o) ==
  IF s = <<>> THEN
    IF d THEN <<"idle", <<>>, 0, o \o CancelO(r, d, c) \o Return(r, "context", 0)>>
    ELSE IF c THEN <<"idle", <<>>, 0, o \o Return(r, "canceled", 0)>>
    ELSE <<"wait", <<>>, 0, o>>
  ELSE
    LET m == Head(s)
        acked == IF Corr THEN Append(o, O(r, "ack", m.id, NoCtx)) ELSE o IN
    IF ~Matches(m) THEN Consume(r, Tail(s), d, c, acked)
    ELSE IF m.mw = "block" THEN <<"mw", Tail(s), m, Append(acked, MwO(r, m))>>
    ELSE <<"idle", <<>>, 0, Append(acked, MwO(r, m)) \o CancelO(r, d, c) \o Return(r, ReplyResult(m), m.id)>>

Init == /\ st = [r \in Reqs |-> "idle"] /\ q = [r \in Reqs |-> <<>>]
        /\ done = [r \in Reqs |-> FALSE] /\ closed = [r \in Reqs |-> FALSE]
        /\ old = [r \in Reqs |-> FALSE] /\ late = [r \in Reqs |-> FALSE]
        /\ cur = [r \in Reqs |-> 0]
        /\ act = [op |-> "init"] /\ obs = <<>>

\* the request r is in state s[1], after the observations s[4]
Set(r, s) ==
  /\ st' = [st EXCEPT ![r] = s[1]] /\ q' = [q EXCEPT ![r] = s[2]] /\ cur' = [cur EXCEPT ![r] = s[3]]
  /\ obs' = s[4]
  /\ IF s[1] = "idle" THEN old' = [old EXCEPT ![r] = TRUE] /\ late' = [late EXCEPT ![r] = TRUE]
     ELSE UNCHANGED <<old, late>>
Forget(r, d, c) == \* flags are only meaningful during a request
  /\ done' = [done EXCEPT ![r] = IF st'[r] = "idle" THEN FALSE ELSE d]
  /\ closed' = [closed EXCEPT ![r] = IF st'[r] = "idle" THEN FALSE ELSE c]

Start(r, f) ==
  /\ st[r] = "idle"
  /\ act' = [op |-> "start", r |-> r, fault |-> f]
  /\ CASE f = "addr" -> obs' = Return(r, "empty address", 0) /\ UNCHANGED view
       [] f = "sub" -> obs' = <<Sub(r)>> \o Return(r, "broker", 0) /\ UNCHANGED view
       [] OTHER ->
            /\ st' = [st EXCEPT ![r] = "pub"]
            /\ done' = [done EXCEPT ![r] = (f = "expired")]
            /\ obs' = <<Sub(r), Pub(r, "middleware"), Pub(r, "publish")>>
            /\ UNCHANGED <<q, closed, old, late, cur>>

PublishReturns(r, ok) ==
  /\ st[r] = "pub"
  /\ act' = [op |-> "publish returns", r |-> r, ok |-> ok]
  /\ Set(r, IF ok THEN Consume(r, q[r], done[r], closed[r], <<>>)
            ELSE <<"idle", <<>>, 0, CancelO(r, done[r], closed[r]) \o Return(r, "publish", 0)>>)
  /\ Forget(r, done[r], closed[r])

Outstanding(r) == {q[r][i].id : i \in 1..Len(q[r])} \cup (IF st[r] = "mw" THEN {cur[r].id} ELSE {})
FreeId(r) == CHOOSE i \in Ids : i \notin Outstanding(r) /\ \A j \in Ids : j < i => j \in Outstanding(r)

Deliver(r, k, w) ==
  /\ st[r] # "idle" /\ ~closed[r] /\ Len(q[r]) < QCap
  /\ ~(st[r] = "pub" /\ done[r])               \* the result would not be determined
  /\ k = "stale" => old[r]
  /\ w # "ok" => k = "own"
  /\ LET m == [id |-> FreeId(r), kind |-> k, mw |-> w]
         s == IF st[r] = "wait" THEN Consume(r, Append(q[r], m), done[r], closed[r], <<>>)
              ELSE <<st[r], Append(q[r], m), cur[r], <<>>>> IN
     /\ act' = [op |-> "deliver", r |-> r, id |-> m.id, kind |-> k, mw |-> w]
     /\ Set(r, [s EXCEPT ![4] = <<Tx(r, m.id)>> \o @])
  /\ Forget(r, done[r], closed[r])

DeliverLate(r) ==      \* on the subscription of the last request that is over
  /\ late[r] /\ st[r] = "idle"
  /\ act' = [op |-> "deliver late", r |-> r]
  /\ obs' = <<Tx(r, 0)>>
  /\ UNCHANGED view

Release(r) ==
  /\ st[r] = "mw"
  /\ act' = [op |-> "release", r |-> r]
  /\ Set(r, <<"idle", <<>>, 0, CancelO(r, done[r], closed[r]) \o Return(r, ReplyResult(cur[r]), cur[r].id)>>)
  /\ Forget(r, done[r], closed[r])

ContextDone(r) ==
  /\ st[r] # "idle" /\ ~done[r] /\ ~closed[r]
  /\ ~(st[r] = "pub" /\ q[r] # <<>>)           \* the result would not be determined
  /\ act' = [op |-> "context done", r |-> r]
  /\ Set(r, IF st[r] = "wait" THEN Consume(r, <<>>, TRUE, closed[r], <<>>) ELSE <<st[r], q[r], cur[r], <<>>>>)
  /\ Forget(r, TRUE, closed[r])

BrokerCloses(r) ==
  /\ st[r] # "idle" /\ ~done[r] /\ ~closed[r]
  /\ act' = [op |-> "broker closes", r |-> r]
  /\ LET o == CancelO(r, FALSE, FALSE) IN
     Set(r, IF st[r] = "wait" THEN Consume(r, <<>>, FALSE, TRUE, o) ELSE <<st[r], q[r], cur[r], o>>)
  /\ Forget(r, FALSE, TRUE)

Next == \E r \in Reqs :
          \/ \E f \in Faults : Start(r, f)
          \/ \E ok \in BOOLEAN : PublishReturns(r, ok)
          \/ \E k \in Kinds, w \in Mws : Deliver(r, k, w)
          \/ DeliverLate(r) \/ Release(r) \/ ContextDone(r) \/ BrokerCloses(r)
Spec == Init /\ [][Next]_vars

Emission == IF Emit THEN PrintT("@@" \o ToJson([s |-> ToString(view), t |-> ToString(view'), a |-> act', o |-> obs'])) ELSE TRUE

--------------------------------------------------------------------------
\* observations of the request of the action
Mine == SelectSeq(obs, LAMBDA e : act.op # "init" /\ e.t = "req " \o ToString(act.r))
Has(ev) == \E i \in 1..Len(obs) : obs[i].ev = ev
Returns == { i \in 1..Len(obs) : \E x \in {"reply", "modified reply", "context", "canceled", "publish", "broker", "empty address",
                                          "middleware error", "decode error"} : obs[i].ev = "return " \o x }
\* only a matching reply is returned, and it has been through the middleware
OnlyOwn == Has("return reply") => act.op \in {"deliver", "publish returns", "release"}
\* a request that returns is idle, with nothing left
Ended == \A r \in Reqs : st[r] = "idle" => q[r] = <<>> /\ ~done[r] /\ ~closed[r]
\* it returns at most once per action, and its subscription is canceled before (when the context is not done)
OneReturn == Cardinality(Returns) <= 1
\* nothing waits for ever: a waiting request has an empty queue, a live context and a live subscription
NoWait == \A r \in Reqs : st[r] = "wait" => q[r] = <<>> /\ ~done[r] /\ ~closed[r]
Invs == OnlyOwn /\ Ended /\ OneReturn /\ NoWait

\* every request ends, if the broker and the middleware answer, and its context expires
Fair == \A r \in Reqs : WF_vars(ContextDone(r)) /\ WF_vars(\E ok \in BOOLEAN : PublishReturns(r, ok)) /\ WF_vars(Release(r))
FairSpec == Spec /\ Fair
Terminates == \A r \in Reqs : [](st[r] # "idle" => <>(st[r] = "idle"))
=============================================================================
