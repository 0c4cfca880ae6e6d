-------------------------- MODULE SubscriptionImpl --------------------------
(***************************************************************************)
(* The algorithm of pkg/extensions/broker.go: a once, a read-write lock and *)
(* the channels messages, cancel, stop and done. Each step is one          *)
(* operation on a lock or on a channel, in every interleaving. Checked:     *)
(* no panic (send on or close of a closed channel), and refinement of      *)
(* Subscription (which carries the properties).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Msgs, Cancels, Cap

VARIABLES pcT,       \* transmitters: idle, lock, check, send, unlock, done
          acc,       \* acc[m]: accepted
          pcC,       \* cancellers: idle, once, send, wait, done
          ctx,
          onceBy,    \* canceller in the once (0: nobody yet, -1: over)
          cancelBuf, \* messages in the cancel channel (capacity 1)
          pcW,       \* cleaner: wait, clean, stop, lock, close, unlock, done, end
          readers,   \* transmitters holding the lock (shared)
          writer,    \* the cleaner holds the lock; "wants": waits for it, which blocks new readers
          stop, closed, done,
          q, popped, got, told, panic
ivars == <<pcT, acc, pcC, ctx, onceBy, cancelBuf, pcW, readers, writer, stop, closed, done, q, popped, got, told, panic>>

Init == /\ pcT = [m \in Msgs |-> "idle"] /\ acc = [m \in Msgs |-> FALSE]
        /\ pcC = [k \in Cancels |-> "idle"] /\ ctx = [k \in Cancels |-> FALSE]
        /\ onceBy = 0 /\ cancelBuf = 0 /\ pcW = "wait" /\ readers = {} /\ writer = "no"
        /\ stop = FALSE /\ closed = FALSE /\ done = FALSE
        /\ q = <<>> /\ popped = 0 /\ got = <<>> /\ told = FALSE /\ panic = FALSE

T(m, from, to) == pcT[m] = from /\ pcT' = [pcT EXCEPT ![m] = to]
UT == UNCHANGED <<pcC, ctx, onceBy, cancelBuf, pcW, stop, closed, done, got, popped, told>>
TCall(m) == T(m, "idle", "lock") /\ UT /\ UNCHANGED <<acc, readers, writer, q, panic>>
TLock(m) == T(m, "lock", "check") /\ writer = "no" /\ readers' = readers \cup {m} /\ UT /\ UNCHANGED <<acc, writer, q, panic>>
TCheck(m) == /\ pcT[m] = "check" /\ pcT' = [pcT EXCEPT ![m] = IF stop THEN "unlock" ELSE "send"]
             /\ UT /\ UNCHANGED <<acc, readers, writer, q, panic>>
TSend(m) == /\ T(m, "send", "unlock")
            /\ \/ closed /\ panic' = TRUE /\ UNCHANGED <<acc, q>>
               \/ ~closed /\ Len(q) < Cap /\ q' = Append(q, m) /\ acc' = [acc EXCEPT ![m] = TRUE] /\ UNCHANGED panic
               \/ stop /\ UNCHANGED <<acc, q, panic>>
            /\ UT /\ UNCHANGED <<readers, writer>>
TUnlock(m) == T(m, "unlock", "ret") /\ readers' = readers \ {m} /\ UT /\ UNCHANGED <<acc, writer, q, panic>>
TReturn(m) == T(m, "ret", "done") /\ UT /\ UNCHANGED <<acc, readers, writer, q, panic>>

UR == UNCHANGED <<pcT, acc, pcC, ctx, onceBy, cancelBuf, pcW, readers, writer, stop, closed, done, panic>>
Pop == popped = 0 /\ q # <<>> /\ popped' = Head(q) /\ q' = Tail(q) /\ UR /\ UNCHANGED <<got, told>>
Read == popped # 0 /\ got' = Append(got, popped) /\ popped' = 0 /\ UR /\ UNCHANGED <<q, told>>
ReadClosed == closed /\ q = <<>> /\ popped = 0 /\ ~told /\ told' = TRUE /\ UR /\ UNCHANGED <<q, got, popped>>

C(k, from, to) == pcC[k] = from /\ pcC' = [pcC EXCEPT ![k] = to]
UC == UNCHANGED <<pcT, acc, pcW, readers, writer, stop, closed, done, q, popped, got, told, panic>>
CCall(k) == C(k, "idle", "once") /\ UC /\ UNCHANGED <<ctx, onceBy, cancelBuf>>
CExpire(k) == ~ctx[k] /\ ctx' = [ctx EXCEPT ![k] = TRUE] /\ UC /\ UNCHANGED <<pcC, onceBy, cancelBuf>>
COnce(k) == \/ C(k, "once", "send") /\ onceBy = 0 /\ onceBy' = k /\ UC /\ UNCHANGED <<ctx, cancelBuf>>
            \/ C(k, "once", "wait") /\ onceBy = -1 /\ UC /\ UNCHANGED <<ctx, onceBy, cancelBuf>>
CSend(k) == C(k, "send", "wait") /\ cancelBuf < 1 /\ cancelBuf' = cancelBuf + 1 /\ onceBy' = -1 /\ UC /\ UNCHANGED ctx
CReturn(k) == C(k, "wait", "done") /\ (done \/ ctx[k]) /\ UC /\ UNCHANGED <<ctx, onceBy, cancelBuf>>

W(from, to) == pcW = from /\ pcW' = to
UW == UNCHANGED <<pcT, acc, pcC, ctx, onceBy, q, popped, got, told>>
WRecv == W("wait", "clean") /\ cancelBuf > 0 /\ cancelBuf' = cancelBuf - 1 /\ UW /\ UNCHANGED <<readers, writer, stop, closed, done, panic>>
WClean == W("clean", "stop") /\ UW /\ UNCHANGED <<cancelBuf, readers, writer, stop, closed, done, panic>>
WStop == W("stop", "want") /\ stop' = TRUE /\ panic' = (panic \/ stop) /\ UW /\ UNCHANGED <<cancelBuf, readers, writer, closed, done>>
WWant == W("want", "lock") /\ writer' = "wants" /\ UW /\ UNCHANGED <<cancelBuf, readers, stop, closed, done, panic>>
WLock == W("lock", "close") /\ readers = {} /\ writer' = "yes" /\ UW /\ UNCHANGED <<cancelBuf, readers, stop, closed, done, panic>>
WClose == W("close", "unlock") /\ closed' = TRUE /\ panic' = (panic \/ closed) /\ UW /\ UNCHANGED <<cancelBuf, readers, writer, stop, done>>
WUnlock == W("unlock", "done") /\ writer' = "no" /\ UW /\ UNCHANGED <<cancelBuf, readers, stop, closed, done, panic>>
WDone == W("done", "end") /\ done' = TRUE /\ UW /\ UNCHANGED <<cancelBuf, readers, writer, stop, closed, panic>>

Next == \/ \E m \in Msgs : TCall(m) \/ TLock(m) \/ TCheck(m) \/ TSend(m) \/ TUnlock(m) \/ TReturn(m)
        \/ Pop \/ Read \/ ReadClosed
        \/ \E k \in Cancels : CCall(k) \/ CExpire(k) \/ COnce(k) \/ CSend(k) \/ CReturn(k)
        \/ WRecv \/ WClean \/ WStop \/ WWant \/ WLock \/ WClose \/ WUnlock \/ WDone
Spec == Init /\ [][Next]_ivars
Fair == /\ WF_ivars(Pop) /\ WF_ivars(Read) /\ WF_ivars(ReadClosed)
        /\ WF_ivars(WRecv \/ WClean \/ WStop \/ WWant \/ WLock \/ WClose \/ WUnlock \/ WDone)
        /\ \A m \in Msgs : WF_ivars(TLock(m)) /\ WF_ivars(TCheck(m) \/ TUnlock(m) \/ TReturn(m)) /\ WF_ivars(TSend(m))
        /\ \A k \in Cancels : WF_ivars(COnce(k) \/ CSend(k)) /\ WF_ivars(CReturn(k))
FairSpec == Spec /\ Fair

NoPanic == ~panic

S == INSTANCE Subscription WITH
  tx <- [m \in Msgs |-> CASE pcT[m] = "idle" -> "idle"
                          [] pcT[m] = "done" -> (IF acc[m] THEN "done" ELSE "lost")
                          [] acc[m] -> "accepted"
                          [] pcT[m] \in {"unlock", "ret"} -> "dropped"
                          [] OTHER -> "called"],
  q <- q, popped <- popped, got <- got, ctx <- ctx, told <- told,
  can <- [k \in Cancels |-> CASE pcC[k] = "idle" -> "idle" [] pcC[k] = "done" -> "done" [] OTHER -> "called"],
  phase <- IF closed THEN "closed" ELSE IF pcW \in {"wait"} THEN "open"
           ELSE IF pcW = "clean" THEN "cleaning" ELSE "cleaned"
Refines == S!Spec
Released == S!Released
Invs == NoPanic /\ S!Invs
=============================================================================
