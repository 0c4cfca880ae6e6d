----------------------------- MODULE Versioning -----------------------------
(***************************************************************************)
(* The versioning wrapper under concurrent subscriptions, cancellations    *)
(* and receptions. Calls and returns are visible; registering, removing,    *)
(* routing and delivering are internal steps. A subscription is known by    *)
(* the number of the call that made it. Messages are numbered; mver gives   *)
(* the version each one is for (once the default version is applied).      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Chans, Vers, Subs, Cancels, Msgs, Gens

VARIABLES sub,    \* sub[k]: state of the subscription call, c, v, g (generation of the broker subscription)
          gen,    \* gen[c]: broker subscriptions opened on c
          bst,    \* bst[c, g]: none, open, cleaned, closed
          bq,     \* bq[c, g]: messages accepted, not routed
          hold,   \* hold[c, g]: message routed, not delivered
          hq, pop, got, told, \* of each subscription: messages delivered, message being read, messages read, closed seen
          can,    \* can[j]: state of the cancellation call, subscription
          tx      \* tx[m]: state of the transmission, c, v, g
vars == <<sub, gen, bst, bq, hold, hq, pop, got, told, can, tx>>

CG == Chans \X Gens
NoHold == [m |-> 0, k |-> 0]
Init == /\ sub = [k \in Subs |-> [s |-> "idle", c |-> "", v |-> "", g |-> 0]]
        /\ gen = [c \in Chans |-> 0] /\ bst = [x \in CG |-> "none"] /\ bq = [x \in CG |-> <<>>] /\ hold = [x \in CG |-> NoHold]
        /\ hq = [k \in Subs |-> <<>>] /\ pop = [k \in Subs |-> 0] /\ got = [k \in Subs |-> <<>>] /\ told = [k \in Subs |-> FALSE]
        /\ can = [j \in Cancels |-> [s |-> "idle", k |-> 0]]
        /\ tx = [m \in Msgs |-> [s |-> "idle", c |-> "", v |-> "", g |-> 0]]

\* Registered: from a point of the call of Subscribe to a point of the cancellation
Registered(k) == sub[k].s \in {"registered", "live"}
Cur(c) == <<c, gen[c]>>
IsOpen(c) == gen[c] > 0 /\ bst[Cur(c)] = "open"
Owners(c, v) == { k \in Subs : Registered(k) /\ sub[k].c = c /\ sub[k].v = v }
Users(c) == { k \in Subs : Registered(k) /\ sub[k].c = c }

U1 == UNCHANGED <<hq, pop, got, told, can, tx>>
SubCall(k, c, v) == /\ sub[k].s = "idle" /\ sub' = [sub EXCEPT ![k] = [s |-> "called", c |-> c, v |-> v, g |-> 0]]
                    /\ UNCHANGED <<gen, bst, bq, hold>> /\ U1
BrokerSubscribe(c) ==
  /\ ~IsOpen(c) /\ gen[c] + 1 \in Gens
  /\ \E k \in Subs : sub[k].s = "called" /\ sub[k].c = c
  /\ gen' = [gen EXCEPT ![c] = @ + 1] /\ bst' = [bst EXCEPT ![c, gen[c] + 1] = "open"]
  /\ UNCHANGED <<sub, bq, hold>> /\ U1
\* the broker subscription is about to be canceled: no version is added to it
Ending(c) == \E k \in Subs : sub[k].s = "last" /\ sub[k].c = c /\ sub[k].g = gen[c]
Register(k) == /\ sub[k].s = "called" /\ IsOpen(sub[k].c) /\ ~Ending(sub[k].c) /\ Owners(sub[k].c, sub[k].v) = {}
               /\ sub' = [sub EXCEPT ![k].s = "registered", ![k].g = gen[sub[k].c]]
               /\ UNCHANGED <<gen, bst, bq, hold>> /\ U1
Refuse(k) == /\ sub[k].s = "called" /\ Owners(sub[k].c, sub[k].v) # {}
             /\ sub' = [sub EXCEPT ![k].s = "refused"] /\ UNCHANGED <<gen, bst, bq, hold>> /\ U1
SubOk(k) == sub[k].s = "registered" /\ sub' = [sub EXCEPT ![k].s = "live"] /\ UNCHANGED <<gen, bst, bq, hold>> /\ U1
SubAlready(k) == sub[k].s = "refused" /\ sub' = [sub EXCEPT ![k].s = "over"] /\ UNCHANGED <<gen, bst, bq, hold>> /\ U1

U2 == UNCHANGED <<hq, pop, got, told, tx, hold, bq, gen>>
CancelCall(j, k) == /\ can[j].s = "idle" /\ can' = [can EXCEPT ![j] = [s |-> "called", k |-> k]]
                    /\ sub[k].s \in {"live", "removed", "last", "closed"} /\ UNCHANGED <<sub, bst>> /\ U2
Remove(k) == /\ sub[k].s = "live" /\ \E j \in Cancels : can[j] = [s |-> "called", k |-> k]
             /\ sub' = [sub EXCEPT ![k].s = IF Users(sub[k].c) = {k} THEN "last" ELSE "removed"] /\ UNCHANGED <<bst, can>> /\ U2
BrokerCancel(c) == /\ IsOpen(c) /\ Ending(c)
                   /\ bst' = [bst EXCEPT ![Cur(c)] = "cleaned"] /\ UNCHANGED <<sub, can>> /\ U2
\* The end of a broker subscription, after its clean up: no message is accepted anymore
Stop(x) == bst[x] = "cleaned" /\ bst' = [bst EXCEPT ![x] = "closed"] /\ UNCHANGED <<sub, can>> /\ U2
\* The end of a version, after the one of the broker subscription if it was the last one
Close(k) == /\ sub[k].s \in {"removed", "last"}
            /\ sub[k].s = "last" => bst[sub[k].c, sub[k].g] # "open"
            /\ sub' = [sub EXCEPT ![k].s = "closed"] /\ UNCHANGED <<bst, can>> /\ U2
CancelReturn(j) == /\ can[j].s = "called" /\ sub[can[j].k].s = "closed"
                   /\ can' = [can EXCEPT ![j].s = "done"] /\ UNCHANGED <<sub, bst>> /\ U2

U3 == UNCHANGED <<sub, gen, bst, can>>
TxCall(m, c, g, v) == tx[m].s = "idle" /\ tx' = [tx EXCEPT ![m] = [s |-> "called", c |-> c, v |-> v, g |-> g]]
                      /\ bst[c, g] # "none" /\ U3 /\ UNCHANGED <<bq, hold, hq, pop, got, told>>
Accept(m) == /\ tx[m].s = "called" /\ bst[tx[m].c, tx[m].g] # "closed"
             /\ bq' = [bq EXCEPT ![tx[m].c, tx[m].g] = Append(@, m)] /\ tx' = [tx EXCEPT ![m].s = "accepted"]
             /\ U3 /\ UNCHANGED <<hold, hq, pop, got, told>>
Drop(m) == /\ tx[m].s = "called" /\ bst[tx[m].c, tx[m].g] # "open" /\ tx' = [tx EXCEPT ![m].s = "accepted"]
           /\ U3 /\ UNCHANGED <<bq, hold, hq, pop, got, told>>
TxReturn(m) == /\ tx[m].s = "accepted" /\ tx' = [tx EXCEPT ![m].s = "done"]
               /\ U3 /\ UNCHANGED <<bq, hold, hq, pop, got, told>>

\* The oldest message of a broker subscription goes to its version, or nowhere if nobody has it
Route(x) == /\ bq[x] # <<>> /\ hold[x] = NoHold /\ bq' = [bq EXCEPT ![x] = Tail(@)]
            /\ LET m == Head(bq[x]) o == Owners(x[1], tx[m].v) IN
               \/ \E k \in o : hold' = [hold EXCEPT ![x] = [m |-> m, k |-> k]]
               \/ (\A k \in o : sub[k].g # x[2]) /\ UNCHANGED hold
            /\ U3 /\ UNCHANGED <<hq, pop, got, told, tx>>
Deliver(x) == /\ hold[x] # NoHold /\ hold' = [hold EXCEPT ![x] = NoHold]
              /\ LET k == hold[x].k IN
                 \/ sub[k].s # "closed" /\ hq' = [hq EXCEPT ![k] = Append(@, hold[x].m)]
                 \/ ~Registered(k) /\ UNCHANGED hq
              /\ U3 /\ UNCHANGED <<bq, pop, got, told, tx>>

U4 == UNCHANGED <<sub, gen, bst, can, tx, bq, hold>>
Pop(k) == /\ pop[k] = 0 /\ hq[k] # <<>> /\ pop' = [pop EXCEPT ![k] = Head(hq[k])] /\ hq' = [hq EXCEPT ![k] = Tail(@)]
          /\ U4 /\ UNCHANGED <<got, told>>
Read(k, m) == /\ pop[k] = m /\ m # 0 /\ got' = [got EXCEPT ![k] = Append(@, m)] /\ pop' = [pop EXCEPT ![k] = 0]
              /\ U4 /\ UNCHANGED <<hq, told>>
ReadClosed(k) == /\ sub[k].s = "closed" /\ pop[k] = 0 /\ hq[k] = <<>> /\ ~told[k]
                 /\ told' = [told EXCEPT ![k] = TRUE] /\ U4 /\ UNCHANGED <<hq, pop, got>>

Internal == \/ \E k \in Subs : Register(k) \/ Refuse(k) \/ Remove(k) \/ Close(k) \/ Pop(k)
            \/ \E x \in CG : Stop(x) \/ Route(x) \/ Deliver(x)
            \/ \E m \in Msgs : Accept(m) \/ Drop(m)
Next == \/ Internal
        \/ \E k \in Subs : SubOk(k) \/ SubAlready(k) \/ ReadClosed(k)
        \/ \E k \in Subs, c \in Chans, v \in Vers : SubCall(k, c, v)
        \/ \E c \in Chans : BrokerSubscribe(c) \/ BrokerCancel(c)
        \/ \E j \in Cancels : CancelReturn(j) \/ \E k \in Subs : CancelCall(j, k)
        \/ \E m \in Msgs : TxReturn(m) \/ (\E k \in Subs : Read(k, m)) \/ (\E x \in CG, v \in Vers \cup {"v9"} : TxCall(m, x[1], x[2], v))
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
\* one subscription at most for a version, and a broker subscription when there is one
Single == \A c \in Chans, v \in Vers : Cardinality(Owners(c, v)) <= 1
Backed == \A k \in Subs : Registered(k) => IsOpen(sub[k].c) /\ sub[k].g = gen[sub[k].c]
OneBroker == \A c \in Chans : Cardinality({ g \in Gens : bst[c, g] = "open" }) <= 1
\* messages only reach their own version, once
Place(k) == got[k] \o (IF pop[k] = 0 THEN <<>> ELSE <<pop[k]>>) \o hq[k]
Own == \A k \in Subs : \A i \in 1..Len(Place(k)) : tx[Place(k)[i]].v = sub[k].v /\ tx[Place(k)[i]].c = sub[k].c
Once == \A k, l \in Subs : \A i \in 1..Len(Place(k)), j \in 1..Len(Place(l)) : Place(k)[i] = Place(l)[j] => k = l /\ i = j
Over == /\ \A k \in Subs : sub[k].s \in {"idle", "over"} \/ (sub[k].s = "closed" /\ told[k] /\ hq[k] = <<>> /\ pop[k] = 0)
        /\ \A j \in Cancels : can[j].s \in {"idle", "done"} /\ \A m \in Msgs : tx[m].s \in {"idle", "done"}
        /\ \A x \in CG : bst[x] \in {"none", "closed"} /\ bq[x] = <<>> /\ hold[x] = NoHold
Invs == Single /\ Backed /\ OneBroker /\ Own /\ Once

\* nothing stays blocked, once every subscription is canceled
Fair == /\ \A k \in Subs : WF_vars(Register(k) \/ Refuse(k)) /\ WF_vars(SubOk(k) \/ SubAlready(k)) /\ WF_vars(Remove(k)) /\ WF_vars(Close(k))
                           /\ WF_vars(Pop(k)) /\ WF_vars(ReadClosed(k)) /\ WF_vars(\E m \in Msgs : Read(k, m))
                           /\ WF_vars(\E j \in Cancels : CancelCall(j, k))
        /\ \A c \in Chans : WF_vars(BrokerSubscribe(c)) /\ WF_vars(BrokerCancel(c))
        /\ \A x \in CG : WF_vars(Stop(x)) /\ WF_vars(Route(x)) /\ WF_vars(Deliver(x))
        /\ \A j \in Cancels : WF_vars(CancelReturn(j))
        /\ \A m \in Msgs : WF_vars(Accept(m) \/ Drop(m)) /\ WF_vars(TxReturn(m))
FairSpec == Spec /\ Fair
Returns == /\ \A k \in Subs : (sub[k].s = "called") ~> (sub[k].s \in {"live", "over", "removed", "last", "closed"})
           /\ \A j \in Cancels : (can[j].s = "called") ~> (can[j].s = "done")
           /\ \A m \in Msgs : (tx[m].s = "called") ~> (tx[m].s = "done")
=============================================================================
