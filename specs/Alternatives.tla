---------------------------- MODULE Alternatives ----------------------------
(***************************************************************************)
(* Messages that are one of several (oneOf): property C18. A document has a *)
(* message with alternatives, operations on the alternatives themselves,    *)
(* and a message that uses the schemas they refer to.                       *)
(***************************************************************************)
EXTENDS Schema
CONSTANTS MaxDev, Emit
Forms == {"inline", "ref", "chain", "nested", "nestedinline"}
Parts == {"none", "plain", "ref", "chain", "comp", "conflict"}
Wheres == {"component", "operation", "chain"}

Str == Leaf("string")
Sub == Obj("x" :> Str @@ "k" :> Leaf("integer"), {"x"})
SubH == Obj("x" :> Str, {"x"})
\* the parts of the message itself
OwnPayload(f) == CASE f = "none" -> None
                   [] f = "plain" -> Obj("o1" :> Str @@ "o2" :> Obj("v" :> Leaf("boolean"), {"v"}), {"o1"})
                   [] f = "conflict" -> Obj("a1" :> Obj("w" :> Str, {}) @@ "b1" :> Leaf("boolean") @@ "o1" :> Str, {"o1"})
                   [] f = "ref" -> Ref("OP") [] f = "chain" -> Ref("OPc")
                   [] f = "comp" -> AllOf("o1" :> Str, {}, <<Ref("OP"), Obj("o6" :> Sub, {"o6"})>>)
OwnHeaders(f) == CASE f = "none" -> None
                   [] f = "plain" -> Obj("p1" :> Str @@ "p2" :> SubH, {"p1"})
                   [] f = "conflict" -> Obj("h1" :> SubH @@ "p1" :> Str, {"h1"})
                   [] f = "ref" -> Ref("OH") [] f = "chain" -> Ref("OHc")
                   [] f = "comp" -> AnyOf("p1" :> Str, {"p1"}, <<Ref("OH")>>)
\* the parts of the first alternative; the second one is always the same
AltPayload(f) == CASE f = "none" -> None
                   [] f = "plain" -> Obj("a1" :> Sub @@ "a2" :> Arr(Obj("z" :> Str, {})) @@ "a3" :> Leaf("date-time"), {"a1", "a3"})
                   [] f = "conflict" -> Obj("b1" :> Str @@ "b2" :> Obj("t" :> Str, {"t"}), {"b2"})
                   [] f = "ref" -> Ref("AP") [] f = "chain" -> Ref("APc")
                   [] f = "comp" -> AllOf("a1" :> Sub, {}, <<Ref("AP"), Obj("a8" :> Sub, {"a8"})>>)
AltHeaders(f) == CASE f = "none" -> None
                   [] f = "plain" -> Obj("h1" :> Str @@ "h2" :> SubH @@ "h3" :> Leaf("date-time"), {"h1", "h3"})
                   [] f = "conflict" -> Obj("g1" :> SubH @@ "h1" :> Str, {"g1"})
                   [] f = "ref" -> Ref("AH") [] f = "chain" -> Ref("AHc")
                   [] f = "comp" -> OneOf("h1" :> Str, {"h1"}, <<Ref("AH")>>)
AltMsg(h, p, c) == [k |-> "message", headers |-> h, payload |-> p, traits |-> <<>>, corr |-> c]
First(d) == AltMsg(AltHeaders(d.ah), AltPayload(d.ap), IF d.corr = "first" THEN "h1" ELSE "")
Second(d) == AltMsg(Obj("g1" :> Str @@ "g2" :> SubH, {"g2"}), Obj("b1" :> Leaf("int32") @@ "b2" :> Sub @@ "b3" :> Leaf("number"), {"b2"}), IF d.corr = "second" THEN "g1" ELSE "")
Third == AltMsg(None, Obj("c1" :> Str @@ "c2" :> Sub, {"c2"}), "")
OneOfMsg(h, p, ms, corr) == [k |-> "message", headers |-> h, payload |-> p, traits |-> <<>>, corr |-> corr, one |-> ms]
RECURSIVE Alts(_)
Env(d) ==
  "AP" :> Obj("a5" :> Sub @@ "a6" :> Leaf("boolean") @@ "a7" :> Arr(Sub), {"a5"}) @@ "APc" :> Ref("AP")
  @@ "AH" :> Obj("h5" :> Str @@ "h6" :> SubH, {"h6"}) @@ "AHc" :> Ref("AH")
  @@ "OP" :> Obj("o3" :> Leaf("date-time") @@ "o4" :> Sub, {"o4"}) @@ "OPc" :> Ref("OP")
  @@ "OH" :> Obj("p3" :> Str @@ "p4" :> SubH, {"p4"}) @@ "OHc" :> Ref("OH")
  @@ "M1" :> (IF d.ap = "none" THEN Third ELSE First(d)) @@ "M1c" :> MsgRef("M1") @@ "M2" :> Second(d) @@ "M3" :> Third
  @@ "N" :> OneOfMsg(None, None, <<MsgRef("M1"), MsgRef("M3")>>, "")
  @@ "W" :> OneOfMsg(OwnHeaders(d.oh), OwnPayload(d.op), Alts(d), CASE d.corr = "own" -> "owncorr" [] d.corr = "declared" -> "h1" [] OTHER -> "")
  @@ "Wc" :> MsgRef("W")
Alts(d) ==
  LET m1 == CASE d.form = "inline" -> First(d) [] d.form = "ref" -> MsgRef("M1") [] d.form = "chain" -> MsgRef("M1c")
              [] d.form = "nested" -> MsgRef("N") [] d.form = "nestedinline" -> OneOfMsg(None, None, <<MsgRef("M1"), Third>>, "")
      m2 == IF d.second = "inline" THEN Second(d) ELSE MsgRef("M2")
  IN CASE d.second = "no" -> <<m1>> [] d.second = "first" -> <<MsgRef("M2"), m1>> [] OTHER -> <<m1, m2>>
Messages(d) == <<CASE d.where = "component" -> MsgRef("W") [] d.where = "chain" -> MsgRef("Wc") [] OTHER -> Env(d)["W"],
                 IF d.ap = "none" THEN MsgRef("M2") ELSE MsgRef("M1"),
                 Msg(Ref("AH"), Obj("u" :> Ref("AP") @@ "v" :> Ref("OPc"), {"u"}))>>

B(x) == IF x THEN 1 ELSE 0
Dev(d) == B(d.op # "none") + B(d.oh # "none") + B(d.ap # "plain") + B(d.ah # "plain") + B(d.form # "ref") + B(d.second # "ref")
          + B(d.where # "operation") + B(d.corr # "none")
Docs == { d \in [op : Parts, oh : Parts, ap : Parts, ah : Parts, form : Forms, second : {"ref", "inline", "no", "first"},
                 where : Wheres, corr : {"none", "own", "declared", "first", "second"}] :
          /\ Dev(d) <= MaxDev
          \* there must be a payload (in the components too), and the header of the correlation ID must not be created where others see it
          /\ (d.op = "none" /\ d.second = "no" /\ d.form # "nested" /\ d.form # "nestedinline") => d.ap # "none"
          /\ d.ap = "none" => d.form = "inline"
          /\ d.corr = "own" => d.oh \in {"plain", "conflict", "comp"}
          /\ d.corr \in {"declared", "first"} => d.oh # "conflict" /\ d.ah = "plain"
          /\ d.corr = "second" => d.second # "no" /\ d.ah # "conflict" }
VARIABLE d
vars == <<d>>
Init == d \in Docs
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

E_ == Env(d)
RECURSIVE Leaves(_)
Leaves(x) == LET m == TheMsg(E_, x) IN {m} \cup (IF "one" \in DOMAIN m THEN UNION { Leaves(m.one[i]) : i \in 1..Len(m.one) } ELSE {})
NamesOf(m, part) == IF m[part].k = "none" THEN {} ELSE DOMAIN NF(E_, m[part]).props
Invs == LET m == Messages(d)[1] p == PayloadNF(E_, m) h == HeadersNF(E_, m) w == E_["W"] IN
  /\ p.k = "object" /\ DOMAIN p.props = UNION { NamesOf(x, "payload") : x \in Leaves(m) }
  /\ (h.k = "object" => DOMAIN h.props = (IF Corr(E_, m) = "" THEN {} ELSE {Corr(E_, m)}) \cup UNION { NamesOf(x, "headers") : x \in Leaves(m) })
  \* what is its own wins, and the alternatives alone are what they would be without it
  /\ (w.payload.k # "none" => \A x \in NamesOf(w, "payload") : p.props[x] = NF(E_, w.payload).props[x])
  /\ PayloadNF(E_, MsgRef("M2")) = NF(E_, Second(d).payload)
Emission == IF Emit THEN PrintT("@@" \o ToJson(
  [d |-> d, env |-> E_, msgs |-> Messages(d), kinds |-> [i \in 1..3 |-> Kinds(E_, Messages(d)[i])],
   probes |-> [i \in 1..3 |-> MsgProbes(E_, Messages(d)[i])]])) ELSE TRUE
=============================================================================
