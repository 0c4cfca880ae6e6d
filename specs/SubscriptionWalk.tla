-------------------------- MODULE SubscriptionWalk --------------------------
(***************************************************************************)
(* Subscription, driven: the environment does one action, then the system  *)
(* runs until it is stable (as in Controller). The transitions are replayed *)
(* on the real subscription. Situations where several outcomes are allowed *)
(* are left to SubscriptionTrace.                                          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Cap, MaxBlocked, MaxCancels, Emit

VARIABLES q, blocked, reader, phase, waiting, n, act, obs
\* waiting: cancellations that are waiting; n: cancellations made; reader: a reader is waiting
\* messages are numbered in the order of their transmission: first is the oldest in the queue
vars == <<q, blocked, reader, phase, waiting, n, act, obs>>
view == <<q, blocked, reader, phase, waiting, n>>

O(t, ev, m) == [t |-> t, ev |-> ev, id |-> m]
Tx(m) == O("transmit " \o ToString(m), "return", m)
Cn(k) == O("cancel " \o ToString(k), "return", k)
RECURSIVE All(_, _)
All(F(_), S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN <<F(x)>> \o All(F, S \ {x})
SeqSet(s) == { s[i] : i \in 1..Len(s) }
Ids == 1..(Cap + MaxBlocked + 1)
FreeId == CHOOSE m \in Ids : m \notin SeqSet(q) \cup SeqSet(blocked) /\ \A o \in Ids : o < m => o \in SeqSet(q) \cup SeqSet(blocked)

Init == /\ q = <<>> /\ blocked = <<>> /\ reader = FALSE /\ phase = "open" /\ waiting = {} /\ n = 0
        /\ act = [op |-> "init"] /\ obs = <<>>

Transmit ==
  /\ phase # "cleaning" /\ Len(blocked) < MaxBlocked
  /\ LET m == FreeId IN
     /\ act' = [op |-> "transmit", id |-> m]
     /\ IF phase = "closed" THEN obs' = <<Tx(m)>> /\ UNCHANGED view        \* dropped
        ELSE IF reader THEN /\ obs' = <<Tx(m), O("reader", "message", m)>> /\ reader' = FALSE
                            /\ UNCHANGED <<q, blocked, phase, waiting, n>>
        ELSE IF Len(q) < Cap THEN /\ obs' = <<Tx(m)>> /\ q' = Append(q, m)
                                  /\ UNCHANGED <<blocked, reader, phase, waiting, n>>
        ELSE obs' = <<>> /\ blocked' = Append(blocked, m) /\ UNCHANGED <<q, reader, phase, waiting, n>>

Read ==
  /\ ~reader /\ Len(blocked) <= 1         \* the order of several blocked transmissions is not determined
  /\ phase = "cleaning" => blocked = <<>>
  /\ act' = [op |-> "read"]
  /\ IF q \o blocked # <<>> THEN
       /\ obs' = <<O("reader", "message", Head(q \o blocked))>> \o (IF blocked # <<>> THEN <<Tx(blocked[1])>> ELSE <<>>)
       /\ q' = Tail(q \o blocked) /\ blocked' = <<>> /\ UNCHANGED <<reader, phase, waiting, n>>
     ELSE IF phase = "closed" THEN obs' = <<O("reader", "closed", 0)>> /\ UNCHANGED view
     ELSE reader' = TRUE /\ obs' = <<>> /\ UNCHANGED <<q, blocked, phase, waiting, n>>

\* The end of the clean up: everything is released
Closing(w, o) == /\ phase' = "closed" /\ waiting' = {}
                 /\ obs' = o \o All(Tx, SeqSet(blocked)) \o All(Cn, w) \o (IF reader THEN <<O("reader", "closed", 0)>> ELSE <<>>)
                 /\ blocked' = <<>> /\ reader' = FALSE /\ UNCHANGED q

Cancel(expired, blocks) ==
  /\ n < MaxCancels /\ n' = n + 1
  /\ blocks => phase = "open" /\ blocked = <<>>
  /\ act' = [op |-> "cancel", id |-> n + 1, expired |-> expired, blocks |-> blocks]
  /\ LET o == <<O("cleanup", "clean", 0)>> IN
     CASE phase = "closed" -> obs' = <<Cn(n + 1)>> /\ UNCHANGED <<q, blocked, reader, phase, waiting>>
       [] phase = "cleaning" ->
            IF expired THEN obs' = <<Cn(n + 1)>> /\ UNCHANGED <<q, blocked, reader, phase, waiting>>
            ELSE obs' = <<>> /\ waiting' = waiting \cup {n + 1} /\ UNCHANGED <<q, blocked, reader, phase>>
       [] OTHER ->
            IF ~blocks THEN Closing({n + 1}, o)
            ELSE /\ phase' = "cleaning" /\ UNCHANGED <<q, blocked, reader>>
                 /\ obs' = o \o (IF expired THEN <<Cn(n + 1)>> ELSE <<>>)
                 /\ waiting' = IF expired THEN waiting ELSE waiting \cup {n + 1}

Expire(k) == /\ k \in waiting /\ act' = [op |-> "expire", id |-> k]
             /\ waiting' = waiting \ {k} /\ obs' = <<Cn(k)>>
             /\ UNCHANGED <<q, blocked, reader, phase, n>>
Release == /\ phase = "cleaning" /\ act' = [op |-> "release"] /\ Closing(waiting, <<>>) /\ UNCHANGED n

Next == Transmit \/ Read \/ Release \/ (\E e, b \in BOOLEAN : Cancel(e, b)) \/ (\E k \in 1..MaxCancels : Expire(k))
Spec == Init /\ [][Next]_vars
Emission == IF Emit THEN PrintT("@@" \o ToJson([s |-> ToString(view), t |-> ToString(view'), a |-> act', o |-> obs'])) ELSE TRUE

NoWait == /\ reader => q = <<>> /\ phase # "closed"
          /\ blocked # <<>> => Len(q) = Cap /\ phase = "open"
          /\ waiting # {} => phase = "cleaning"
Invs == NoWait /\ Len(q) <= Cap
=============================================================================
