------------------------------- MODULE Chain -------------------------------
(***************************************************************************)
(* One message going through the middlewares of a generated controller,    *)
(* in one of its directions, down to its settlement (properties C01, C02,  *)
(* C24, and the part of C06/C07 about middlewares on awaited replies).     *)
(*                                                                         *)
(*   "recv"  reception by a subscribed handler                             *)
(*   "send"  publication                                                   *)
(*   "wait"  awaited reply of a request with correlation ID                *)
(*   "waitn" awaited reply of a request without correlation ID             *)
(*                                                                         *)
(* A middleware is a small program, i.e. a sequence of operations:         *)
(*   N  call next and remember its result    R  return that result         *)
(*   0  return no error                      E  return its own error       *)
(*   P  panic                                M  change the message         *)
(*   B  make the message undecodable         C  add a value in the context *)
(*   X  (first) is the provided Recovery middleware around the rest        *)
(*   L  (alone) is the provided Logging middleware                          *)
(*   I  (alone) is the provided Intercepter middleware                      *)
(*                                                                         *)
(* The machine is the one of the generated code: a call stack, one         *)
(* "already called" flag per step. Every behaviour is enumerated; at its   *)
(* end the scenario and everything that user code observes is emitted, to  *)
(* be replayed on the real code.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxN,        \* maximum number of middlewares
          MaxEh,       \* maximum number of middlewares with exotic error handlers
          Progs,       \* programs of the middlewares
          Ehs,         \* error handlers: what they settle, or L for the provided logging one
          Dirs,        \* directions
          Emit         \* whether to print the scenarios

VARIABLES sc, stack, ret, called, msg, log, settled, phase
vars == <<sc, stack, ret, called, msg, log, settled, phase>>

StdProgs == { <<"0">>, <<"N","R">>, <<"N","N","R">>, <<"E">>, <<"N","E">>, <<"N","0">>,
              <<"M","N","R">>, <<"M","0">>, <<"N","M","R">>, <<"C","N","R">>, <<"B","N","R">>,
              <<"P">>, <<"N","P">>, <<"X","N","R">>, <<"C","N","M","N","R">> }
QuickProgs == StdProgs \ { <<"N","P">>, <<"M","0">> }
AllDirs == {"recv", "send", "wait", "waitn"}

\* around what the library provides
LibProgs == { <<"L">>, <<"I">>, <<"X","N","R">>, <<"P">>, <<"N","P">>, <<"E">>, <<"N","0">>, <<"M","N","R">>, <<"C","N","R">>, <<"B","0">> }

LogEhs == { <<>>, <<"L">> }
StdEhs == { <<>>, <<"a">>, <<"n">>, <<"a","n">>, <<"n","a">>, <<"a","a">> }

Scenarios ==
  { s \in UNION { [dir : Dirs, progs : [1..n -> Progs], bad : BOOLEAN,
                   out : {"ok", "err", "panic"}, eh : Ehs] : n \in 0..MaxN } :
      /\ (s.eh # <<>>) => (s.dir = "recv" /\ Len(s.progs) <= MaxEh)
      /\ s.bad => (s.dir = "recv" /\ Len(s.progs) < MaxN)
      /\ (s.out # "ok") => (s.dir \in {"recv", "send"})
      /\ (s.out = "panic") => (s.dir = "recv") }

N == Len(sc.progs)
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)
SetTop(f) == [stack EXCEPT ![Len(stack)] = f]
View(m) == [bad |-> m.bad, mods |-> m.mods]
NoMsg == [bad |-> FALSE, mods |-> <<>>]

Ev(e, k, r, m, c) == [e |-> e, k |-> k, r |-> r, pay |-> m, ctx |-> c]
Err(k) == "E" \o ToString(k)

Init ==
  /\ sc \in Scenarios
  /\ stack = <<>> /\ ret = "none" /\ called = {} /\ settled = "no" /\ phase = "start"
  /\ msg = [bad |-> sc.bad, mods |-> <<>>]
  /\ log = <<>>

--------------------------------------------------------------------------
(* Starting: the message is received from the broker, or to be published. *)

Start ==
  /\ phase = "start"
  /\ phase' = "call"
  /\ stack' = <<[k |-> 0, pc |-> 1, last |-> "nil", ctx |-> <<>>, out |-> <<>>, auto |-> FALSE]>>
  /\ ret' = "none"
  /\ IF sc.dir = "wait"        \* replies are acknowledged before anything else
       THEN settled' = "ack" /\ log' = Append(log, Ev("ack", 0, "", NoMsg, <<>>))
       ELSE UNCHANGED <<settled, log>>
  /\ UNCHANGED <<sc, called, msg>>

(* Calling the step after the one on top of the stack. Frame 0 is the     *)
(* generated code, frames 1..N the middlewares.                           *)
Call ==
  /\ phase = "call"
  /\ LET k == Top.k + 1
         c == Top.out IN
     IF k \in called THEN           \* already called: nothing to do, no error
       /\ ret' = "nil" /\ phase' = "return"
       /\ UNCHANGED <<sc, stack, called, msg, log, settled>>
     ELSE
       /\ called' = called \cup {k}
       /\ IF k <= N THEN
            /\ stack' = Append(stack, [k |-> k, pc |-> 1, last |-> "nil", ctx |-> c, out |-> c, auto |-> FALSE])
            /\ log' = Append(log, Ev("enter", k, "", View(msg), c))
            /\ phase' = "run" /\ ret' = "none"
            /\ UNCHANGED <<sc, msg, settled>>
          ELSE                      \* final step
            /\ phase' = "return"
            /\ CASE sc.dir = "recv" ->
                      IF msg.bad THEN ret' = "ED" /\ UNCHANGED <<log, settled>>
                      ELSE IF sc.out = "ok" THEN
                        /\ ret' = "nil" /\ settled' = "ack"
                        /\ log' = log \o <<Ev("final", k, "", View(msg), c), Ev("ack", 0, "", NoMsg, <<>>)>>
                      ELSE /\ ret' = IF sc.out = "err" THEN "EH" ELSE "PANIC"
                           /\ log' = Append(log, Ev("final", k, "", View(msg), c))
                           /\ UNCHANGED settled
                 [] sc.dir = "send" ->
                      /\ log' = Append(log, Ev("final", k, "", View(msg), c))
                      /\ ret' = (IF sc.out = "ok" THEN "nil" ELSE "EP")
                      /\ UNCHANGED settled
                 [] OTHER -> ret' = "nil" /\ UNCHANGED <<log, settled>>
            /\ UNCHANGED <<sc, stack, msg>>

Body == IF Top.k > 0 /\ sc.progs[Top.k][1] = "X" THEN Tail(sc.progs[Top.k]) ELSE sc.progs[Top.k]
IsRecovery == Top.k > 0 /\ sc.progs[Top.k][1] = "X"

(* One operation of the middleware on top of the stack. *)
Run ==
  /\ phase = "run"
  /\ LET f == Top
         op == Body[f.pc]
         g == [f EXCEPT !.pc = @ + 1] IN
     CASE op = "N" -> /\ phase' = "call" /\ stack' = SetTop(g)
                      /\ UNCHANGED <<sc, ret, called, msg, log, settled>>
       [] op = "M" -> /\ msg' = IF msg.bad THEN [bad |-> FALSE, mods |-> <<f.k>>]
                                           ELSE [msg EXCEPT !.mods = Append(@, f.k)]
                      /\ stack' = SetTop(g)
                      /\ UNCHANGED <<sc, ret, called, log, settled, phase>>
       [] op = "B" -> /\ msg' = [bad |-> TRUE, mods |-> <<>>]
                      /\ stack' = SetTop(g)
                      /\ UNCHANGED <<sc, ret, called, log, settled, phase>>
       [] op = "L" -> \* logged once, with the context received, in the directions that it knows; then like 0
                      /\ log' = IF sc.dir \in {"recv", "send"} THEN Append(log, Ev("log", f.k, "", NoMsg, f.ctx)) ELSE log
                      /\ stack' = SetTop([g EXCEPT !.auto = TRUE]) /\ phase' = "call"
                      /\ UNCHANGED <<sc, ret, called, msg, settled>>
       [] op = "I" -> \* the message as it is is given to the channel; then like 0
                      /\ log' = Append(log, Ev("intercepted", f.k, "", View(msg), <<>>))
                      /\ stack' = SetTop([g EXCEPT !.auto = TRUE]) /\ phase' = "call"
                      /\ UNCHANGED <<sc, ret, called, msg, settled>>
       [] op = "C" -> /\ stack' = SetTop([g EXCEPT !.out = Append(f.ctx, f.k)])
                      /\ UNCHANGED <<sc, ret, called, msg, log, settled, phase>>
       [] op \in {"0", "R", "E", "P"} ->
            LET r == CASE op = "0" -> "nil" [] op = "R" -> f.last
                       [] op = "E" -> Err(f.k) [] OTHER -> "PANIC" IN
            IF r = "nil"
              \* The next step is called automatically (with the context received by the middleware)
              THEN /\ stack' = SetTop([g EXCEPT !.auto = TRUE, !.out = f.ctx])
                   /\ phase' = "call"
                   /\ UNCHANGED <<sc, ret, called, msg, log, settled>>
              ELSE /\ stack' = Pop /\ ret' = r /\ phase' = "return"
                   /\ UNCHANGED <<sc, called, msg, log, settled>>

(* Something returns to the frame on top of the stack. *)
Return ==
  /\ phase = "return"
  /\ LET f == Top IN
     IF f.k = 0 THEN
       /\ phase' = "end" /\ UNCHANGED <<sc, stack, ret, called, msg, log, settled>>
     ELSE IF f.auto \/ (ret = "PANIC" /\ ~IsRecovery) THEN
       /\ stack' = Pop /\ UNCHANGED <<sc, ret, called, msg, log, settled, phase>>
     ELSE IF ret = "PANIC" THEN     \* recovered: the middleware returns no error
       /\ stack' = SetTop([f EXCEPT !.auto = TRUE, !.out = f.ctx])
       /\ phase' = "call"
       /\ log' = Append(log, Ev("recovered", f.k, "", NoMsg, <<>>))
       /\ UNCHANGED <<sc, ret, called, msg, settled>>
     ELSE
       /\ stack' = SetTop([f EXCEPT !.last = ret])
       /\ log' = Append(log, Ev("next", f.k, ret, View(msg), <<>>))
       /\ phase' = "run"
       /\ UNCHANGED <<sc, ret, called, msg, settled>>

(* Back in the generated code: settlement and result. *)
Settle(l, s, how) ==       \* settle with the list of settlements 'how', only the first counts
  IF how = <<>> \/ s # "no" THEN <<l, s>>
  ELSE LET w == IF how[1] = "a" THEN "ack" ELSE "nak" IN <<Append(l, Ev(w, 0, "", NoMsg, <<>>)), w>>

End ==
  /\ phase = "end"
  /\ phase' = "done"
  /\ CASE sc.dir = "recv" ->
            IF ret \in {"nil", "PANIC"} THEN UNCHANGED <<log, settled>>
            ELSE LET l0 == Append(log, Ev("errh", 0, ret, View(msg), <<>>))
                     l1 == IF sc.eh = <<"L">> THEN Append(l0, Ev("errlog", 0, ret, NoMsg, <<>>)) ELSE l0
                     s1 == Settle(l1, settled, IF sc.eh = <<"L">> THEN <<>> ELSE sc.eh)
                     s2 == Settle(s1[1], s1[2], <<"n">>) IN
                 log' = s2[1] /\ settled' = s2[2]
       [] sc.dir = "send" ->
            log' = Append(log, Ev("result", 0, ret, NoMsg, <<>>)) /\ UNCHANGED settled
       [] OTHER ->
            /\ log' = Append(log, IF ret # "nil" THEN Ev("result", 0, ret, NoMsg, <<>>)
                                  ELSE IF msg.bad THEN Ev("result", 0, "ED", NoMsg, <<>>)
                                  ELSE Ev("result", 0, "nil", View(msg), <<>>))
            /\ UNCHANGED settled
  /\ UNCHANGED <<sc, stack, ret, called, msg>>

Crashed == sc.dir = "recv" /\ ret = "PANIC"

Emission ==
  /\ phase = "done"
  /\ phase' = "emitted"
  /\ IF Emit /\ ~Crashed THEN PrintT("@@" \o ToJson([sc |-> sc, log |-> log])) ELSE TRUE
  /\ UNCHANGED <<sc, stack, ret, called, msg, log, settled>>

Next == Start \/ Call \/ Run \/ Return \/ End \/ Emission
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

--------------------------------------------------------------------------
(* Properties *)
Idx(e, k) == { i \in 1..Len(log) : log[i].e = e /\ log[i].k = k }
All(e) == { i \in 1..Len(log) : log[i].e = e }

\* C01: at most once each, in registration order, final step after all of them
EnterOnce == \A k \in 1..N : Cardinality(Idx("enter", k)) <= 1
FinalOnce == Cardinality(All("final")) <= 1
InOrder == \A i, j \in All("enter") : log[i].k < log[j].k => i < j
FinalLast == \A i \in All("final") : \A k \in 1..N : \E j \in Idx("enter", k) : j < i
NoSkip == \A k \in 2..N : Idx("enter", k) # {} => Idx("enter", k-1) # {}
\* a message goes through everything unless some step failed or panicked
Complete == phase \in {"done", "emitted"} /\ ret = "nil" /\ sc.dir = "send" =>
              (All("final") # {} \/ (\E i \in All("next") : log[i].r # "nil") \/ All("recovered") # {})
\* C02
SettledOnce == Cardinality(All("ack")) + Cardinality(All("nak")) <= 1
AckAfterHandler == sc.dir = "recv" /\ sc.eh \in {<<>>, <<"L">>} =>
              \A i \in All("ack") : sc.out = "ok" /\ \E j \in All("final") : j < i
NakOnError == \A i \in All("nak") : \E j \in All("errh") : j < i
ErrhOnce == Cardinality(All("errh")) <= 1
ErrorSettles == phase \in {"done", "emitted"} /\ sc.dir = "recv" /\ All("errh") # {} => settled # "no"
\* C24
Xs == { k \in 1..N : sc.progs[k][1] = "X" }
Recovered == phase \in {"done", "emitted"} /\ ret = "PANIC" =>
               \/ Xs = {}
               \/ \E k \in 1..N : (\E i \in 1..Len(sc.progs[k]) : sc.progs[k][i] = "P") /\ \A x \in Xs : x > k
LibOnce == \A k \in 1..N : /\ Cardinality(Idx("intercepted", k)) = (IF sc.progs[k] = <<"I">> THEN Cardinality(Idx("enter", k)) ELSE 0) \/ phase # "emitted"
                          /\ Cardinality(Idx("recovered", k)) <= 1
Invs == /\ Recovered /\ LibOnce /\ EnterOnce /\ FinalOnce /\ InOrder /\ FinalLast /\ NoSkip /\ Complete
        /\ SettledOnce /\ AckAfterHandler /\ NakOnError /\ ErrhOnce /\ ErrorSettles
=============================================================================
