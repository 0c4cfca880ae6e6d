--------------------------- MODULE VersioningImpl ---------------------------
(***************************************************************************)
(* The algorithm of pkg/extensions/versioning: a lock for the channels, one *)
(* for the versions of each channel, a listener per broker subscription and *)
(* a cleaner per version. Each step is one operation on a lock, a map or a  *)
(* channel. Checked: it refines Versioning, and everything returns (no      *)
(* deadlock). Broker subscriptions follow Subscription.                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Chans, Vers, Subs, Cancels, Msgs, Gens, QCap

VARIABLES pcS, arg, res,          \* Subscribe calls: program counter, channel and version, result
          lockC,                  \* owner of the lock of the channels
          lockV,                  \* lockV[c, g]: owner of the lock of the versions
          chmap, gens,            \* chmap[c]: generation (0: none); gens[c]: last generation
          vmap,                   \* vmap[c, g][v]: subscription (0: none)
          sg, last,               \* generation of a subscription; it was the last of its channel
          pcW,                    \* cleaner of a subscription
          pcL, lm, lk,            \* listener: program counter, message, target
          bst, bq, hq, pop, got, told, can, tx
ivars == <<pcS, arg, res, lockC, lockV, chmap, gens, vmap, sg, last, pcW, pcL, lm, lk, bst, bq, hq, pop, got, told, can, tx>>

CG == Chans \X Gens
S(k) == <<"sub", k>>
W(k) == <<"clean", k>>
L(x) == <<"listen", x>>
Free == <<"free">>
Init == /\ pcS = [k \in Subs |-> "idle"] /\ arg = [k \in Subs |-> [c |-> "", v |-> ""]] /\ res = [k \in Subs |-> ""]
        /\ lockC = Free /\ lockV = [x \in CG |-> Free] /\ chmap = [c \in Chans |-> 0] /\ gens = [c \in Chans |-> 0]
        /\ vmap = [x \in CG |-> [v \in Vers |-> 0]] /\ sg = [k \in Subs |-> 0] /\ last = [k \in Subs |-> FALSE] /\ pcW = [k \in Subs |-> "none"]
        /\ pcL = [x \in CG |-> "none"] /\ lm = [x \in CG |-> 0] /\ lk = [x \in CG |-> 0]
        /\ bst = [x \in CG |-> "none"] /\ bq = [x \in CG |-> <<>>]
        /\ hq = [k \in Subs |-> <<>>] /\ pop = [k \in Subs |-> 0] /\ got = [k \in Subs |-> <<>>] /\ told = [k \in Subs |-> FALSE]
        /\ can = [j \in Cancels |-> [s |-> "idle", k |-> 0]] /\ tx = [m \in Msgs |-> [s |-> "idle", c |-> "", v |-> "", g |-> 0]]

\* --- Subscribe ---------------------------------------------------------------
PS(k, from, to) == pcS[k] = from /\ pcS' = [pcS EXCEPT ![k] = to]
K(k) == <<arg[k].c, chmap[arg[k].c]>>
US == UNCHANGED <<last, bq, hq, pop, got, told, can, tx, lm, lk>>
SCall(k, c, v) == PS(k, "idle", "lockC") /\ arg' = [arg EXCEPT ![k] = [c |-> c, v |-> v]]
                  /\ US /\ UNCHANGED <<res, lockC, lockV, chmap, gens, vmap, sg, pcW, pcL, bst>>
SLockC(k) == PS(k, "lockC", "channel") /\ lockC = Free /\ lockC' = S(k)
             /\ US /\ UNCHANGED <<arg, res, lockV, chmap, gens, vmap, sg, pcW, pcL, bst>>
SChannel(k) == LET c == arg[k].c g == gens[c] + 1 IN
               /\ PS(k, "channel", "lockV") /\ US /\ UNCHANGED <<arg, res, lockC, lockV, vmap, sg, pcW>>
               /\ IF chmap[c] # 0 THEN UNCHANGED <<chmap, gens, pcL, bst>>
                  ELSE /\ g \in Gens /\ chmap' = [chmap EXCEPT ![c] = g] /\ gens' = [gens EXCEPT ![c] = g]
                       /\ bst' = [bst EXCEPT ![c, g] = "open"] /\ UNCHANGED pcL
SLockV(k) == PS(k, "lockV", "version") /\ lockV[K(k)] = Free /\ lockV' = [lockV EXCEPT ![K(k)] = S(k)]
             /\ US /\ UNCHANGED <<arg, res, lockC, chmap, gens, vmap, sg, pcW, pcL, bst>>
SVersion(k) == LET v == arg[k].v IN
               /\ PS(k, "version", "unlockV") /\ US /\ UNCHANGED <<arg, lockC, lockV, chmap, gens, pcL, bst>>
               /\ IF vmap[K(k)][v] # 0 THEN res' = [res EXCEPT ![k] = "already"] /\ UNCHANGED <<vmap, sg, pcW>>
                  ELSE /\ res' = [res EXCEPT ![k] = "ok"] /\ vmap' = [vmap EXCEPT ![K(k)][v] = k]
                       /\ sg' = [sg EXCEPT ![k] = K(k)[2]] /\ pcW' = [pcW EXCEPT ![k] = "wait"]
SUnlockV(k) == PS(k, "unlockV", "unlockC") /\ lockV' = [lockV EXCEPT ![K(k)] = Free]
               /\ US /\ UNCHANGED <<arg, res, lockC, chmap, gens, vmap, sg, pcW, pcL, bst>>
\* the listener is launched by a deferred call, before the lock is released
SUnlockC(k) == /\ PS(k, "unlockC", "ret") /\ lockC' = Free
               /\ pcL' = IF pcL[K(k)] = "none" THEN [pcL EXCEPT ![K(k)] = "recv"] ELSE pcL
               /\ US /\ UNCHANGED <<arg, res, lockV, chmap, gens, vmap, sg, pcW, bst>>
SReturn(k) == PS(k, "ret", "done") /\ US /\ UNCHANGED <<arg, res, lockC, lockV, chmap, gens, vmap, sg, pcW, pcL, bst>>

\* --- Cancellations, and the cleaner ---------------------------------------------
UC0 == UNCHANGED <<pcS, arg, res, gens, sg, pcL, lm, lk, bq, hq, pop, got, told, tx>>
UC == UC0 /\ UNCHANGED last
CCall(j, k) == /\ can[j].s = "idle" /\ pcS[k] = "done" /\ res[k] = "ok" /\ can' = [can EXCEPT ![j] = [s |-> "called", k |-> k]]
               /\ UC /\ UNCHANGED <<lockC, lockV, chmap, vmap, pcW, bst>>
CReturn(j) == can[j].s = "called" /\ pcW[can[j].k] = "end" /\ can' = [can EXCEPT ![j].s = "done"]
              /\ UC /\ UNCHANGED <<lockC, lockV, chmap, vmap, pcW, bst>>
PW(k, from, to) == pcW[k] = from /\ pcW' = [pcW EXCEPT ![k] = to] /\ UNCHANGED can
X(k) == <<arg[k].c, sg[k]>>
WRequest(k) == PW(k, "wait", "lockC") /\ (\E j \in Cancels : can[j] = [s |-> "called", k |-> k])
               /\ UC /\ UNCHANGED <<lockC, lockV, chmap, vmap, bst>>
WLockC(k) == PW(k, "lockC", "lockV") /\ lockC = Free /\ lockC' = W(k) /\ UC /\ UNCHANGED <<lockV, chmap, vmap, bst>>
WLockV(k) == PW(k, "lockV", "delete") /\ lockV[X(k)] = Free /\ lockV' = [lockV EXCEPT ![X(k)] = W(k)] /\ UC /\ UNCHANGED <<lockC, chmap, vmap, bst>>
WDelete(k) == /\ pcW[k] = "delete" /\ UNCHANGED can /\ vmap' = [vmap EXCEPT ![X(k)][arg[k].v] = 0]
              /\ pcW' = [pcW EXCEPT ![k] = IF \A v \in Vers \ {arg[k].v} : vmap[X(k)][v] = 0 THEN "clean" ELSE "unlockV"]
              /\ last' = [last EXCEPT ![k] = \A v \in Vers \ {arg[k].v} : vmap[X(k)][v] = 0]
              /\ UC0 /\ UNCHANGED <<lockC, lockV, chmap, bst>>
\* the broker subscription is cleaned, then stops, then is over
WClean(k) == PW(k, "clean", "stop") /\ bst' = [bst EXCEPT ![X(k)] = "cleaned"] /\ UC /\ UNCHANGED <<lockC, lockV, chmap, vmap>>
WStop(k) == PW(k, "stop", "forget") /\ bst' = [bst EXCEPT ![X(k)] = "closed"] /\ UC /\ UNCHANGED <<lockC, lockV, chmap, vmap>>
WForget(k) == PW(k, "forget", "unlockV") /\ chmap' = [chmap EXCEPT ![arg[k].c] = 0] /\ UC /\ UNCHANGED <<lockC, lockV, vmap, bst>>
WUnlockV(k) == PW(k, "unlockV", "unlockC") /\ lockV' = [lockV EXCEPT ![X(k)] = Free] /\ UC /\ UNCHANGED <<lockC, chmap, vmap, bst>>
WUnlockC(k) == PW(k, "unlockC", "close") /\ lockC' = Free /\ UC /\ UNCHANGED <<lockV, chmap, vmap, bst>>
WClose(k) == PW(k, "close", "end") /\ UC /\ UNCHANGED <<lockC, lockV, chmap, vmap, bst>>

\* --- Transmissions and the listener -----------------------------------------------
UT == UNCHANGED <<last, pcS, arg, res, lockC, chmap, gens, vmap, sg, pcW, bst, told, can, got, pop>>
TCall(m, c, g, v) == /\ tx[m].s = "idle" /\ bst[c, g] # "none" /\ tx' = [tx EXCEPT ![m] = [s |-> "called", c |-> c, v |-> v, g |-> g]]
                     /\ UT /\ UNCHANGED <<lockV, pcL, lm, lk, bq, hq>>
TAccept(m) == LET x == <<tx[m].c, tx[m].g>> IN
              /\ tx[m].s = "called" /\ tx' = [tx EXCEPT ![m].s = "accepted"] /\ UT /\ UNCHANGED <<lockV, pcL, lm, lk, hq>>
              /\ \/ bst[x] # "closed" /\ Len(bq[x]) < QCap /\ bq' = [bq EXCEPT ![x] = Append(@, m)]
                 \/ bst[x] = "closed" /\ UNCHANGED bq
TReturn(m) == tx[m].s = "accepted" /\ tx' = [tx EXCEPT ![m].s = "done"] /\ UT /\ UNCHANGED <<lockV, pcL, lm, lk, bq, hq>>
PL(x, from, to) == pcL[x] = from /\ pcL' = [pcL EXCEPT ![x] = to] /\ UNCHANGED tx /\ UT
LRecv(x) == PL(x, "recv", "lockV") /\ bq[x] # <<>> /\ lm' = [lm EXCEPT ![x] = Head(bq[x])] /\ bq' = [bq EXCEPT ![x] = Tail(@)]
            /\ UNCHANGED <<lockV, lk, hq>>
LEnd(x) == PL(x, "recv", "end") /\ bq[x] = <<>> /\ bst[x] = "closed" /\ UNCHANGED <<lockV, lm, lk, bq, hq>>
LLockV(x) == PL(x, "lockV", "lookup") /\ lockV[x] = Free /\ lockV' = [lockV EXCEPT ![x] = L(x)] /\ UNCHANGED <<lm, lk, bq, hq>>
LLookup(x) == PL(x, "lookup", "unlockV") /\ UNCHANGED <<lockV, lm, bq, hq>>
              /\ lk' = [lk EXCEPT ![x] = IF tx[lm[x]].v \in Vers THEN vmap[x][tx[lm[x]].v] ELSE 0]
LUnlockV(x) == PL(x, "unlockV", IF lk[x] = 0 THEN "recv" ELSE "send") /\ lockV' = [lockV EXCEPT ![x] = Free]
               /\ lm' = [lm EXCEPT ![x] = IF lk[x] = 0 THEN 0 ELSE @] /\ UNCHANGED <<lk, bq, hq>>
LSend(x) == /\ PL(x, "send", "recv") /\ lm' = [lm EXCEPT ![x] = 0] /\ UNCHANGED <<lockV, lk, bq>>
            /\ LET k == lk[x] IN
               \/ pcW[k] # "end" /\ Len(hq[k]) < QCap /\ hq' = [hq EXCEPT ![k] = Append(@, lm[x])]
               \/ pcW[k] \in {"close", "end"} /\ UNCHANGED hq

\* --- The readers ------------------------------------------------------------------
UR == UNCHANGED <<last, pcS, arg, res, lockC, lockV, chmap, gens, vmap, sg, pcW, pcL, lm, lk, bst, bq, can, tx>>
RPop(k) == pop[k] = 0 /\ hq[k] # <<>> /\ pop' = [pop EXCEPT ![k] = Head(hq[k])] /\ hq' = [hq EXCEPT ![k] = Tail(@)] /\ UR /\ UNCHANGED <<got, told>>
RRead(k, m) == pop[k] = m /\ m # 0 /\ got' = [got EXCEPT ![k] = Append(@, m)] /\ pop' = [pop EXCEPT ![k] = 0] /\ UR /\ UNCHANGED <<hq, told>>
RClosed(k) == pcW[k] = "end" /\ pop[k] = 0 /\ hq[k] = <<>> /\ ~told[k] /\ told' = [told EXCEPT ![k] = TRUE] /\ UR /\ UNCHANGED <<hq, pop, got>>

SStep(k) == SLockC(k) \/ SChannel(k) \/ SLockV(k) \/ SVersion(k) \/ SUnlockV(k) \/ SUnlockC(k) \/ SReturn(k)
WStep(k) == WRequest(k) \/ WLockC(k) \/ WLockV(k) \/ WDelete(k) \/ WClean(k) \/ WStop(k) \/ WForget(k) \/ WUnlockV(k) \/ WUnlockC(k) \/ WClose(k)
LStep(x) == LRecv(x) \/ LEnd(x) \/ LLockV(x) \/ LLookup(x) \/ LUnlockV(x) \/ LSend(x)
RStep(k) == RPop(k) \/ RClosed(k) \/ \E m \in Msgs : RRead(k, m)
Next == \/ \E k \in Subs : SStep(k) \/ WStep(k) \/ RStep(k) \/ \E c \in Chans, v \in Vers : SCall(k, c, v)
        \/ \E j \in Cancels : CReturn(j) \/ \E k \in Subs : CCall(j, k)
        \/ \E x \in CG : LStep(x)
        \/ \E m \in Msgs : TAccept(m) \/ TReturn(m) \/ \E x \in CG, v \in Vers \cup {"v9"} : TCall(m, x[1], x[2], v)
Spec == Init /\ [][Next]_ivars
\* No deadlock: when no step is possible (besides new calls), nothing is pending. As no step can be done
\* forever, everything returns.
Step == \/ \E k \in Subs : SStep(k) \/ WStep(k) \/ RStep(k)
        \/ \E j \in Cancels : CReturn(j)
        \/ \E x \in CG : LStep(x)
        \/ \E m \in Msgs : TAccept(m) \/ TReturn(m)
Settled == /\ \A k \in Subs : pcS[k] \in {"idle", "done"} /\ pcW[k] \in {"none", "wait", "end"} /\ hq[k] = <<>> /\ pop[k] = 0
           /\ \A j \in Cancels : can[j].s \in {"idle", "done"}
           /\ \A x \in CG : pcL[x] \in {"none", "recv", "end"} /\ bq[x] = <<>>
           /\ \A m \in Msgs : tx[m].s \in {"idle", "done"}
           /\ lockC = Free /\ \A x \in CG : lockV[x] = Free
NoDeadlock == ENABLED Step \/ Settled

V == INSTANCE Versioning WITH
  sub <- [k \in Subs |-> [c |-> arg[k].c, v |-> arg[k].v, g |-> sg[k],
                          s |-> CASE pcS[k] = "idle" -> "idle"
                                  [] res[k] = "" -> "called"
                                  [] res[k] = "already" -> (IF pcS[k] = "done" THEN "over" ELSE "refused")
                                  [] pcS[k] # "done" -> "registered"
                                  [] pcW[k] \in {"wait", "lockC", "lockV", "delete"} -> "live"
                                  [] pcW[k] = "end" -> "closed"
                                  [] OTHER -> IF last[k] THEN "last" ELSE "removed"]],
  gen <- gens, hold <- [x \in CG |-> IF pcL[x] \in {"send"} \/ (pcL[x] = "unlockV" /\ lk[x] # 0) THEN [m |-> lm[x], k |-> lk[x]] ELSE [m |-> 0, k |-> 0]],
  bq <- [x \in CG |-> IF pcL[x] \in {"lockV", "lookup"} THEN <<lm[x]>> \o bq[x] ELSE bq[x]]
Refines == V!Spec
Invs == V!Invs /\ NoDeadlock
=============================================================================
