--------------------------- MODULE VersioningTrace ---------------------------
(***************************************************************************)
(* Are the recorded concurrent executions of the real versioning wrapper   *)
(* behaviours of Versioning ? The internal steps are free, when they can    *)
(* matter: a message is read from the queue, routed and delivered at once   *)
(* (what happens in between commutes), broker subscriptions need not stop,  *)
(* and a version is closed just before somebody sees it.                    *)
(***************************************************************************)
EXTENDS Versioning, TLC, Json

Traces == JsonDeserialize("traces.json")
VARIABLES tr, i
tvars == <<sub, gen, bst, bq, hold, hq, pop, got, told, can, tx, tr, i>>

Ev == Traces[tr].ev[i]
Is(e) == i <= Len(Traces[tr].ev) /\ Ev.e = e /\ i' = i + 1
TraceInit == Init /\ tr \in 1..Len(Traces) /\ i = 1
RouteDeliver(x) ==
  /\ bq[x] # <<>> /\ bq' = [bq EXCEPT ![x] = Tail(@)]
  /\ LET m == Head(bq[x]) o == Owners(x[1], tx[m].v) IN
     \/ \E k \in o : hq' = [hq EXCEPT ![k] = Append(@, m)]
     \/ (\A k \in o : sub[k].g # x[2]) /\ UNCHANGED hq
  /\ U3 /\ UNCHANGED <<pop, got, told, tx, hold>>
TraceRead(k, m) == /\ hq[k] # <<>> /\ Head(hq[k]) = m /\ hq' = [hq EXCEPT ![k] = Tail(@)] /\ got' = [got EXCEPT ![k] = Append(@, m)]
                   /\ U4 /\ UNCHANGED <<pop, told>>
More == i <= Len(Traces[tr].ev)
Sees(k) == More /\ ((Ev.e = "closed" /\ Ev.k = k) \/ (Ev.e = "cancel ret" /\ can[Ev.j].k = k))
Free == \/ \E k \in Subs : Register(k) \/ Refuse(k) \/ Remove(k) \/ (Sees(k) /\ Close(k))
        \/ \E x \in CG : RouteDeliver(x)
        \/ \E m \in Msgs : Accept(m) \/ Drop(m)
TraceNext ==
  /\ UNCHANGED tr
  /\ \/ Is("sub") /\ SubCall(Ev.k, Ev.c, Ev.v)
     \/ Is("ok") /\ SubOk(Ev.k)
     \/ Is("already") /\ SubAlready(Ev.k)
     \/ Is("bsub") /\ BrokerSubscribe(Ev.c)
     \/ Is("bcancel") /\ gen[Ev.c] = Ev.g /\ BrokerCancel(Ev.c)
     \/ Is("cancel") /\ CancelCall(Ev.j, Ev.k)
     \/ Is("cancel ret") /\ CancelReturn(Ev.j)
     \/ Is("tx") /\ TxCall(Ev.m, Ev.c, Ev.g, Ev.v)
     \/ Is("tx ret") /\ TxReturn(Ev.m)
     \/ Is("read") /\ TraceRead(Ev.k, Ev.m)
     \/ Is("closed") /\ ReadClosed(Ev.k)
     \/ Free /\ i' = i
TraceSpec == TraceInit /\ [][TraceNext]_tvars
\* the end: nothing is left
End == /\ \A k \in Subs : sub[k].s \in {"idle", "over"} \/ (sub[k].s = "closed" /\ told[k] /\ hq[k] = <<>>)
       /\ \A j \in Cancels : can[j].s \in {"idle", "done"} /\ \A m \in Msgs : tx[m].s \in {"idle", "done"}
       /\ \A x \in CG : bst[x] # "open" /\ bq[x] = <<>>
Report == (~More /\ End) => PrintT("@@" \o ToString(tr))
=============================================================================
