---------------------------- MODULE Subscription ----------------------------
(***************************************************************************)
(* A broker subscription shared by transmitters (the broker), a reader     *)
(* (the listening goroutine) and cancellers (any copy of the subscription): *)
(* property C05. This is what callers see: calls and returns, plus internal *)
(* steps Accept, Drop, Pop and Close. SubscriptionTrace checks that         *)
(* executions recorded on the real code are behaviours of this module,      *)
(* SubscriptionImpl that the algorithm of pkg/extensions/broker.go is one.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Msgs,      \* messages, each transmitted once
          Cancels,   \* cancellations
          Cap        \* capacity of the queue

VARIABLES tx,        \* tx[m]: idle, called, accepted, dropped, done (returned, accepted), lost (returned, dropped)
          q,         \* messages accepted and not popped
          popped,    \* message popped, not given to the reader yet (0: none)
          got,       \* messages given to the reader
          can,       \* can[k]: idle, called, done
          ctx,       \* ctx[k]: its context is done
          phase,     \* open, cleaning, cleaned, closed
          told       \* the reader knows that it is closed
vars == <<tx, q, popped, got, can, ctx, phase, told>>

Init == /\ tx = [m \in Msgs |-> "idle"] /\ q = <<>> /\ popped = 0 /\ got = <<>>
        /\ can = [k \in Cancels |-> "idle"] /\ ctx = [k \in Cancels |-> FALSE]
        /\ phase = "open" /\ told = FALSE

TxCall(m) == tx[m] = "idle" /\ tx' = [tx EXCEPT ![m] = "called"] /\ UNCHANGED <<q, popped, got, can, ctx, phase, told>>
Accept(m) == /\ tx[m] = "called" /\ Len(q) < Cap /\ phase # "closed"
             /\ tx' = [tx EXCEPT ![m] = "accepted"] /\ q' = Append(q, m)
             /\ UNCHANGED <<popped, got, can, ctx, phase, told>>
\* dropped as soon as a cancellation is requested, at the latest when it is complete
Drop(m) == /\ tx[m] = "called" /\ \E k \in Cancels : can[k] # "idle"
           /\ tx' = [tx EXCEPT ![m] = "dropped"] /\ UNCHANGED <<q, popped, got, can, ctx, phase, told>>
TxReturn(m) == /\ tx[m] \in {"accepted", "dropped"}
               /\ tx' = [tx EXCEPT ![m] = IF @ = "accepted" THEN "done" ELSE "lost"]
               /\ UNCHANGED <<q, popped, got, can, ctx, phase, told>>
Pop == /\ popped = 0 /\ q # <<>> /\ popped' = Head(q) /\ q' = Tail(q)
       /\ UNCHANGED <<tx, got, can, ctx, phase, told>>
Read(m) == /\ popped = m /\ popped # 0 /\ popped' = 0 /\ got' = Append(got, m)
           /\ UNCHANGED <<tx, q, can, ctx, phase, told>>
ReadClosed == /\ phase = "closed" /\ q = <<>> /\ popped = 0 /\ told' = TRUE
              /\ UNCHANGED <<tx, q, popped, got, can, ctx, phase>>
CancelCall(k) == can[k] = "idle" /\ can' = [can EXCEPT ![k] = "called"] /\ UNCHANGED <<tx, q, popped, got, ctx, phase, told>>
Expire(k) == ~ctx[k] /\ ctx' = [ctx EXCEPT ![k] = TRUE] /\ UNCHANGED <<tx, q, popped, got, can, phase, told>>
CleanStart == /\ phase = "open" /\ \E k \in Cancels : can[k] # "idle"
              /\ phase' = "cleaning" /\ UNCHANGED <<tx, q, popped, got, can, ctx, told>>
CleanEnd == phase = "cleaning" /\ phase' = "cleaned" /\ UNCHANGED <<tx, q, popped, got, can, ctx, told>>
Close == phase = "cleaned" /\ phase' = "closed" /\ UNCHANGED <<tx, q, popped, got, can, ctx, told>>
CancelReturn(k) == /\ can[k] = "called" /\ (phase \in {"cleaned", "closed"} \/ ctx[k])
                   /\ can' = [can EXCEPT ![k] = "done"] /\ UNCHANGED <<tx, q, popped, got, ctx, phase, told>>

Internal == Pop \/ Close \/ \E m \in Msgs : Accept(m) \/ Drop(m)
Next == \/ Internal \/ ReadClosed \/ CleanStart \/ CleanEnd
        \/ \E m \in Msgs : TxCall(m) \/ TxReturn(m) \/ Read(m)
        \/ \E k \in Cancels : CancelCall(k) \/ Expire(k) \/ CancelReturn(k)
Spec == Init /\ [][Next]_vars

--------------------------------------------------------------------------
Pending == { m \in Msgs : tx[m] \in {"called", "accepted", "dropped"} }
TypeOK == Len(q) <= Cap /\ phase \in {"open", "cleaning", "cleaned", "closed"}
\* each accepted message is in one place, in order
Once == \A i, j \in 1..Len(got \o q) : i # j => (got \o q)[i] # (got \o q)[j]
Kept == { m \in Msgs : tx[m] \in {"accepted", "done"} }
          = { (got \o q)[i] : i \in 1..Len(got \o q) } \cup ({popped} \ {0})
\* nothing comes out once the reader has been told
Told == told => q = <<>> /\ popped = 0 /\ phase = "closed"
Invs == TypeOK /\ Once /\ Kept /\ Told

\* With a fair system, whatever is requested ends, once there is a cancellation
FairSpec == /\ Spec /\ WF_vars(Pop) /\ WF_vars(Close) /\ WF_vars(CleanStart) /\ WF_vars(CleanEnd) /\ WF_vars(ReadClosed)
            /\ \A m \in Msgs : WF_vars(Accept(m) \/ Drop(m)) /\ WF_vars(TxReturn(m)) /\ WF_vars(Read(m))
            /\ \A k \in Cancels : WF_vars(CancelReturn(k))
Released == \A k \in Cancels : (can[k] # "idle") ~> (can[k] = "done" /\ told /\ \A m \in Msgs : tx[m] \in {"idle", "done", "lost"})
=============================================================================
