------------------------------ MODULE Traits ------------------------------
(***************************************************************************)
(* Messages with traits: property C18 (AsyncAPI v3). A document has a       *)
(* message with its own definitions and traits, one that only has the       *)
(* traits, and one that uses directly the schemas the traits refer to.      *)
(***************************************************************************)
EXTENDS Schema
CONSTANTS MaxDev, Emit
Parts == {"none", "plain", "conflict", "ref", "comp", "chain"}
Forms == {"ref", "inline", "chain"}
Corrs == {"none", "own", "trait", "both", "declared"}

Str == Leaf("string")
Sub == Obj("x" :> Str @@ "y" :> Leaf("integer"), {"x"})
SubH == Obj("x" :> Str, {"x"})
\* definitions of a trait; everything is only declared there, except what conflicts
TraitHeaders(f) == CASE f = "none" -> None
                     [] f = "plain" -> Obj("t1" :> Str @@ "t2" :> SubH @@ "t3" :> Leaf("date-time"), {"t1", "t3"})
                     [] f = "conflict" -> Obj("own1" :> SubH @@ "own2" :> Str @@ "t1" :> Str, {"own2"})
                     [] f = "ref" -> Ref("TH") [] f = "chain" -> Ref("THc")
                     [] f = "comp" -> AllOf("t1" :> Str, {}, <<Ref("TH"), Obj("t4" :> SubH, {"t4"})>>)
TraitPayload(f) == CASE f = "none" -> None
                     [] f = "plain" -> Obj("p1" :> Sub @@ "p2" :> Arr(Obj("z" :> Str, {})) @@ "p3" :> Leaf("int32"), {"p1", "p3"})
                     [] f = "conflict" -> Obj("o1" :> Leaf("integer") @@ "o2" :> Obj("w" :> Str, {}) @@ "p3" :> Str, {"o2"})
                     [] f = "ref" -> Ref("TP") [] f = "chain" -> Ref("TPc")
                     [] f = "comp" -> AnyOf("p1" :> Sub, {}, <<Ref("TP"), Obj("p5" :> Sub, {"p5"})>>)
OwnHeaders(f) == CASE f = "none" -> None
                   [] f \in {"plain", "conflict"} -> Obj("own1" :> Str @@ "own2" :> SubH, {"own1"})
                   [] f = "ref" -> Ref("OH") [] f = "chain" -> Ref("OHc")
                   [] f = "comp" -> OneOf("own1" :> Str, {"own1"}, <<Ref("OH")>>)
OwnPayload(f) == CASE f = "none" -> None
                   [] f \in {"plain", "conflict"} -> Obj("o1" :> Str @@ "o2" :> Obj("v" :> Leaf("boolean"), {"v"}), {"o1"})
                   [] f = "ref" -> Ref("OP") [] f = "chain" -> Ref("OPc")
                   [] f = "comp" -> AllOf("o1" :> Str, {}, <<Ref("OP"), Obj("o6" :> Str, {"o6"})>>)
Env(d) ==
  "TH" :> Obj("t5" :> Str @@ "t6" :> SubH, {"t6"}) @@ "THc" :> Ref("TH")
  @@ "TP" :> Obj("p6" :> Sub @@ "p7" :> Leaf("boolean") @@ "p8" :> Arr(Sub), {"p6"}) @@ "TPc" :> Ref("TP")
  @@ "OH" :> Obj("own3" :> Str @@ "own4" :> SubH, {"own4"}) @@ "OHc" :> Ref("OH")
  @@ "OP" :> Obj("o3" :> Leaf("date-time") @@ "o4" :> Sub, {"o4"}) @@ "OPc" :> Ref("OP")
  @@ "T1" :> Trait(TraitHeaders(d.th), TraitPayload(d.tp), IF d.corr \in {"trait", "both"} THEN "tcorr" ELSE IF d.corr = "declared" THEN "t1" ELSE "")
  @@ "T1c" :> TraitRef("T1")
  @@ "T2" :> Trait(Obj("s1" :> Str, {"s1"}), Obj("s2" :> Sub @@ "s3" :> Leaf("number"), {"s2"}), "")
\* how the message has its traits
Has(d) ==
  (CASE d.form = "ref" -> <<TraitRef("T1")>> [] d.form = "chain" -> <<TraitRef("T1c")>> [] d.form = "inline" -> <<Env(d)["T1"]>>)
  \o (IF d.two THEN <<TraitRef("T2")>> ELSE <<>>)
Messages(d) ==
  <<[headers |-> OwnHeaders(d.oh), payload |-> OwnPayload(d.op), traits |-> Has(d), corr |-> IF d.corr \in {"own", "both"} THEN "owncorr" ELSE ""],
    [headers |-> None, payload |-> IF d.tp = "none" THEN Obj("text" :> Str, {}) ELSE None, traits |-> Has(d), corr |-> ""],
    [headers |-> Ref("TH"), payload |-> Obj("a" :> Ref("TP") @@ "b" :> Ref("OPc"), {"a"}), traits |-> <<>>, corr |-> ""]>>

B(x) == IF x THEN 1 ELSE 0
Dev(d) == B(d.oh # "plain") + B(d.op # "plain") + B(d.th # "plain") + B(d.tp # "plain") + B(d.form # "ref") + B(d.two) + B(d.corr # "none")
Docs == { d \in [oh : Parts, op : Parts, th : Parts, tp : Parts, form : Forms, two : BOOLEAN, corr : Corrs] :
          /\ Dev(d) <= MaxDev
          \* "conflict" is for the traits only, and there must be a payload
          /\ d.oh # "conflict" /\ d.op # "conflict"
          /\ d.op = "none" => d.tp # "none"
          /\ d.corr = "declared" => d.th = "plain" }
VARIABLE d
vars == <<d>>
Init == d \in Docs
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

E_ == Env(d)
Invs == LET m == Messages(d)[1] h == HeadersNF(E_, m) p == PayloadNF(E_, m)
            own(part) == IF m[part].k = "none" THEN NoProps ELSE NF(E_, m[part]).props
            of(t, part) == LET s == OfTrait(E_, t, part) IN IF s.k = "none" THEN {} ELSE DOMAIN NF(E_, s).props
        IN /\ p.k = "object"
           \* what is its own wins, the rest comes from the traits, and nothing else
           /\ \A x \in DOMAIN own("payload") : p.props[x] = own("payload")[x]
           /\ DOMAIN p.props = DOMAIN own("payload") \cup UNION { of(m.traits[i], "payload") : i \in 1..Len(m.traits) }
           /\ h.k = "object" => \A x \in DOMAIN own("headers") : h.props[x] = own("headers")[x]
           /\ Corr(E_, m) = (CASE d.corr \in {"own", "both"} -> "owncorr" [] d.corr = "trait" -> "tcorr" [] d.corr = "declared" -> "t1" [] OTHER -> "")
Emission == IF Emit THEN PrintT("@@" \o ToJson(
  [d |-> d, ver |-> 3, env |-> E_, msgs |-> Messages(d), kinds |-> [i \in 1..3 |-> Kinds(E_, Messages(d)[i])],
   probes |-> [i \in 1..3 |-> MsgProbes(E_, Messages(d)[i])]])) ELSE TRUE
=============================================================================
