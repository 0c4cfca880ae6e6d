----------------------------- MODULE StreamTrace -----------------------------
(* Are the recorded executions of the real JetStream controller behaviours of Stream ? *)
EXTENDS Stream, Json
Traces == JsonDeserialize("traces.json")
VARIABLES tr, i
tvars == <<st, chan, told, last, open, subj, pos, taker, cover, bare, could, loss, how, acked, n, tr, i>>
Ev == Traces[tr].ev[i]
Is(e) == i <= Len(Traces[tr].ev) /\ Ev.e = e /\ i' = i + 1
TraceInit == Init /\ tr \in 1..Len(Traces) /\ i = 1
TraceNext ==
  /\ UNCHANGED tr
  /\ \/ Is("sub") /\ SubCall(Ev.k, Ev.c)
     \/ Is("ready") /\ SubRet(Ev.k)
     \/ Is("start") /\ Start(Ev.s)
     \/ Is("stop") /\ Stop(Ev.s)
     \/ Is("send") /\ Send(Ev.m, Ev.c, Ev.s)
     \/ Is("read") /\ Read(Ev.k, Ev.m)
     \/ Is("settle") /\ Settle(Ev.m, Ev.c)
     \/ Is("srvack") /\ SrvAck(Ev.m, Ev.c)
     \/ Is("cancel") /\ CancelCall(Ev.k)
     \/ Is("canceled") /\ CancelRet(Ev.k)
     \/ Is("closed") /\ Closed(Ev.k)
     \/ Is("calm") /\ Calm /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
Report == i > Len(Traces[tr].ev) => PrintT("@@" \o ToString(tr))
=============================================================================
