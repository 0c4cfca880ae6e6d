------------------------------ MODULE Compose ------------------------------
(***************************************************************************)
(* Schemas composed with allOf, anyOf and oneOf, and messages with traits:  *)
(* property C18. A document is described by what differs from a simple one. *)
(***************************************************************************)
EXTENDS Schema
CONSTANTS MaxDev, Emit
Places == {"root", "prop", "deep", "items", "header", "add", "optprop"}
Ops == {"all", "any", "one", "mixed"}
Forms == {"ref", "inline", "chain", "refcomp", "inlinecomp"}
Owns == {"plain", "none", "conflict", "require"}

\* --- the definitions of a document ---------------------------------------------
Str == Leaf("string")
Sub == Obj("x" :> Str @@ "y" :> Leaf("integer"), {"x"})
Base(n, hdr) ==
  CASE n = 1 -> IF hdr THEN Obj("a" :> Str @@ "m" :> Sub @@ "o" :> Str, {"a", "m"})
                ELSE Obj("a" :> Str @@ "m" :> Sub @@ "o" :> Leaf("boolean"), {"a", "m"})
    [] n = 2 -> IF hdr THEN Obj("b" :> Str @@ "d" :> Leaf("date-time") @@ "r" :> Ref("Other"), {"b"})
                ELSE Obj("b" :> Leaf("int32") @@ "l" :> Arr(Obj("z" :> Leaf("boolean"), {"z"})) @@ "r" :> Ref("Other") @@ "d" :> Leaf("date-time")
                         @@ "t" :> Arr(Ref("Other")), {"b", "r"})
Member(n, form, hdr) ==
  CASE form = "ref" -> Ref("Base" \o ToString(n))
    [] form = "inline" -> Base(n, hdr)
    [] form = "chain" -> Ref("Chain" \o ToString(n))
    [] form = "refcomp" -> Ref("Comp" \o ToString(n))
    [] form = "inlinecomp" -> AllOf("q" \o ToString(n) :> Str, {}, <<Ref("Base" \o ToString(n)), Obj("e" \o ToString(n) :> Sub, {"e" \o ToString(n)})>>)
Env(hdr) ==
  "Base1" :> Base(1, hdr) @@ "Base2" :> Base(2, hdr) @@ "Chain1" :> Ref("Base1") @@ "Chain2" :> Ref("Base2")
  @@ "Comp1" :> AllOf("c1" :> Str, {"c1"}, <<Ref("Base1"), Ref("Deep1")>>)
  @@ "Comp2" :> AnyOf("c2" :> Str, {}, <<Ref("Base2"), Obj("i2" :> Str, {"i2"})>>)
  @@ "Deep1" :> Obj("dp" :> Str, {"dp"}) @@ "Other" :> Obj("q" :> Str @@ "w" :> Sub, {"q"})
OwnProps(own) == CASE own = "plain" -> "own" :> Str [] own \in {"none", "require"} -> NoProps
                   [] own = "conflict" -> "a" :> Str @@ "m" :> Obj("other" :> Str, {}) @@ "b" :> Str
OwnReq(own) == CASE own = "plain" -> {"own"} [] own = "require" -> {"o"} [] OTHER -> {}
Compose(d) ==
  LET hdr == d.place = "header"
      m1 == Member(1, d.mem1, hdr)
      m2 == IF d.mem2 = "no" THEN <<>> ELSE <<Member(2, d.mem2, hdr)>>
      ps == OwnProps(d.own) rq == OwnReq(d.own)
  IN CASE d.op = "all" -> AllOf(ps, rq, <<m1>> \o m2)
       [] d.op = "any" -> AnyOf(ps, rq, <<m1>> \o m2)
       [] d.op = "one" -> OneOf(ps, rq, m2 \o <<m1>>)
       [] d.op = "mixed" -> Full(ps, rq, None, m2, <<Obj("any1" :> Str, {})>>, <<m1>>)
Payload(d) ==
  LET c == Compose(d) IN
  CASE d.place = "root" -> c
    [] d.place = "header" -> Obj("text" :> Str, {})
    [] d.place = "prop" -> Obj("p" :> c, {"p"})
    [] d.place = "optprop" -> Obj("p" :> c, {})
    [] d.place = "deep" -> Obj("p" :> Obj("s" :> c, {}), {"p"})
    [] d.place = "items" -> Obj("p" :> Arr(c), {"p"})
    [] d.place = "add" -> Map("p" :> Str, {}, c)
\* the composed message, one that only uses what it refers to, and one that uses the composed schema again
Messages(d) ==
  <<Msg(IF d.place = "header" THEN Compose(d) ELSE None, Payload(d)),
    IF d.place = "header" THEN Msg(Ref("Base1"), Obj("text" :> Str, {})) ELSE Msg(None, Ref("Base1")),
    Msg(None, Obj("u" :> Ref("Comp1") @@ "v" :> Ref("Comp2"), {"u"}))>>

\* --- the documents with at most MaxDev differences ---------------------------------
B(x) == IF x THEN 1 ELSE 0
Dev(d) == B(d.place # "root") + B(d.op # "all") + B(d.mem1 # "ref") + B(d.mem2 # "inline") + B(d.own # "plain") + B(~d.typed)
Docs == { d \in [place : Places, op : Ops, mem1 : Forms, mem2 : Forms \cup {"no"}, own : Owns, typed : BOOLEAN] :
          /\ Dev(d) <= MaxDev
          /\ (d.own = "require" => d.typed) }
VARIABLE d
vars == <<d>>
Init == d \in Docs
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

E_ == Env(d.place = "header")
\* exactly the union, own properties winning, whatever the way it is written
Names(s) == LET r == Resolve(E_, s) IN
  UNION ({DOMAIN r.props} \cup { DOMAIN NF(E_, x).props : x \in SeqSet(r.all \o r.any \o r.one) })
Invs == LET c == Compose(d) n == NF(E_, c) IN
  /\ DOMAIN n.props = Names(c)
  /\ \A p \in DOMAIN c.props : n.props[p] = NF(E_, c.props[p])
  /\ c.req \subseteq n.req
  /\ \A x \in SeqSet(c.all \o c.any \o c.one) : NF(E_, x).req \subseteq n.req
  \* a document with inlined references means the same
  /\ d.mem1 \in {"ref", "chain"} => NF(E_, Compose([d EXCEPT !.mem1 = "inline"])) = n
Emission == IF Emit THEN PrintT("@@" \o ToJson(
  [d |-> d, env |-> E_, typed |-> d.typed, msgs |-> [i \in 1..3 |-> Messages(d)[i]],
   kinds |-> [i \in 1..3 |-> Kinds(E_, Messages(d)[i])],
   probes |-> [i \in 1..3 |-> MsgProbes(E_, Messages(d)[i])]])) ELSE TRUE
=============================================================================
