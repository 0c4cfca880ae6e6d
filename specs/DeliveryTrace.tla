---------------------------- MODULE DeliveryTrace ----------------------------
(* Are the recorded executions of the real NATS controller behaviours of Delivery ? *)
EXTENDS Delivery, TLC, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, i
tvars == <<st, chan, own, open, line, told, pub, sent, tr, i>>
Ev == Traces[tr].ev[i]
Is(e) == i <= Len(Traces[tr].ev) /\ Ev.e = e /\ i' = i + 1
TraceInit == Init /\ tr \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ UNCHANGED tr
  /\ \/ Is("sub") /\ SubCall(Ev.k, Ev.c)
     \/ Is("srvsub") /\ SrvSub(Ev.s, Ev.c)
     \/ Is("ready") /\ Ready(Ev.k)
     \/ Is("send") /\ Send(Ev.s, Ev.m)
     \/ Is("read") /\ Read(Ev.k, Ev.m)
     \/ Is("cancel") /\ CancelCall(Ev.k)
     \/ Is("srvunsub") /\ SrvUnsub(Ev.s)
     \/ Is("canceled") /\ CancelRet(Ev.k)
     \/ Is("closed") /\ Closed(Ev.k)
     \/ Is("pub") /\ PubCall(Ev.m)
     \/ Is("srvpub") /\ SrvPub(Ev.m)
     \/ Is("published") /\ PubRet(Ev.m)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Report == (i > Len(Traces[tr].ev) /\ End) => PrintT("@@" \o ToString(tr))
=============================================================================
