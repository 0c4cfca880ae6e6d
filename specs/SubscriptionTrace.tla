------------------------- MODULE SubscriptionTrace -------------------------
(***************************************************************************)
(* Are the recorded executions of the real subscription behaviours of      *)
(* Subscription ? Each trace is a sequence of events; the internal steps    *)
(* are free. Accepted(t) is printed when the end of the trace t is reached. *)
(***************************************************************************)
EXTENDS Subscription, TLC, Json

Traces == JsonDeserialize("traces.json")
VARIABLES tr, i
tvars == <<tx, q, popped, got, can, ctx, phase, told, tr, i>>

Ev == Traces[tr].ev[i]
Is(e) == i <= Len(Traces[tr].ev) /\ Ev.e = e /\ i' = i + 1
TraceInit == Init /\ tr \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ UNCHANGED tr
  /\ \/ Is("tx") /\ TxCall(Ev.n)
     \/ Is("tx ret") /\ TxReturn(Ev.n)
     \/ Is("read") /\ Read(Ev.n)
     \/ Is("closed") /\ ReadClosed
     \/ Is("cancel") /\ CancelCall(Ev.n)
     \/ Is("cancel ret") /\ CancelReturn(Ev.n)
     \/ Is("expire") /\ Expire(Ev.n)
     \/ Is("clean") /\ CleanStart
     \/ Is("cleaned") /\ CleanEnd
     \/ Internal /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* the end: nothing is left
Over == /\ i > Len(Traces[tr].ev)
        /\ q = <<>> /\ popped = 0 /\ told
        /\ \A m \in Msgs : tx[m] \in {"idle", "done", "lost"}
        /\ \A k \in Cancels : can[k] \in {"idle", "done"}
Report == Over => PrintT("@@" \o ToString(tr))
=============================================================================
