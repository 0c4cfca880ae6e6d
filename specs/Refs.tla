------------------------------- MODULE Refs -------------------------------
(***************************************************************************)
(* References: property C17. A document has one operation; each of its      *)
(* parts (slots) is either inline, or a reference to the same definition in *)
(* the components, behind a chain of references, in another file, or inside *)
(* another component (property, items, values of a map, payload, headers).  *)
(* The meaning is always the one of the document without any reference.         *)
(***************************************************************************)
EXTENDS Schema
CONSTANTS PairForms, Emit
\* parts of a document, and what each of them is inside of
Up == "op" :> "" @@ "channel" :> "op" @@ "param" :> "channel" @@ "message" :> "channel" @@ "corr" :> "message"
      @@ "trait" :> "message" @@ "headers" :> "message" @@ "payload" :> "message"
      @@ "th" :> "trait" @@ "hs" :> "headers" @@ "hd" :> "headers" @@ "ho" :> "headers"
      @@ "s" :> "payload" @@ "i" :> "payload" @@ "d" :> "payload" @@ "o" :> "payload" @@ "ox" :> "o" @@ "a" :> "payload"
      @@ "ai" :> "a" @@ "ar" :> "payload" @@ "m" :> "payload" @@ "mx" :> "m" @@ "c" :> "payload" @@ "cx" :> "c"
Slots == DOMAIN Up
\* what only exists in AsyncAPI v3
Only3 == {"op", "channel", "trait", "th"}
Forms == {"ref", "chain2", "chain3", "dep", "depchain", "second"}
\* a message can also be found through another channel
Inside == {"inprop", "initems", "inadd", "inpayload"}
SchemaSlots == Slots \ {"op", "channel", "param", "message", "corr", "trait"}
ObjectSlots == {"headers", "payload", "th", "ho", "o", "ai", "m", "c", "cx"}
FormsOf(x) == Forms \cup (IF x = "message" THEN {"channel"} ELSE {}) \cup (IF x \in SchemaSlots THEN Inside \cup {"depprop"} ELSE {})
              \cup (IF x \in ObjectSlots THEN {"inheaders"} ELSE {})
Form(f, x) == IF x \in DOMAIN f THEN f[x] ELSE "inline"
RECURSIVE File(_, _)
\* the file where the definition of a part is; another file only refers to itself
File(f, x) == IF x = "" THEN "main"
              ELSE IF File(f, Up[x]) # "main" THEN File(f, Up[x])
              ELSE CASE Form(f, x) \in {"dep", "depchain", "depprop"} -> "Dep" [] Form(f, x) = "second" -> "Sec" [] OTHER -> "main"

Links(form) == CASE form = "inline" -> 0 [] form \in {"chain3", "depchain"} -> 3 [] form = "chain2" -> 2 [] OTHER -> 1
\* names along the chain to the definition of a part; the ones in another file start with its name
Name(f, x, n) ==
  LET up == File(f, Up[x])
      file == IF up # "main" THEN up ELSE IF Form(f, x) = "depchain" /\ n = 1 THEN "main" ELSE File(f, x)
  IN (IF file = "main" THEN "" ELSE file) \o "N" \o x \o ToString(n)
Place(f, x, def) == IF Form(f, x) = "inline" THEN def ELSE Ref(Name(f, x, 1))
Defs(f, x, def) ==
  [nm \in { Name(f, x, n) : n \in 1..Links(Form(f, x)) } |->
     LET n == CHOOSE n \in 1..Links(Form(f, x)) : nm = Name(f, x, n)
     IN IF n = Links(Form(f, x)) THEN def ELSE Ref(Name(f, x, n + 1))]

Str == Leaf("string")
\* definitions of the parts that are schemas, with f = the forms
RECURSIVE Def(_, _)
P(f, x) == Place(f, x, Def(f, x))
Def(f, x) ==
  CASE x \in {"hs", "s", "ox"} -> Str
    [] x \in {"i", "mx"} -> Leaf("int32")
    [] x \in {"d", "hd"} -> Leaf("date-time")
    [] x = "ho" -> Obj("x" :> Str, {"x"})
    [] x = "o" -> Obj("x" :> P(f, "ox") @@ "y" :> Leaf("integer"), {"x"})
    [] x = "ai" -> Obj("z" :> Str, {})
    [] x = "a" -> Arr(P(f, "ai"))
    [] x = "ar" -> Arr(Leaf("number"))
    [] x = "m" -> Map("k" :> Str, {"k"}, P(f, "mx"))
    [] x = "cx" -> Obj("c2" :> Leaf("boolean"), {"c2"})
    [] x = "c" -> AllOf("c1" :> Str, {}, <<P(f, "cx")>>)
    [] x = "th" -> Obj("t1" :> Str, {"t1"})
    [] x = "headers" -> Obj("h/s" :> P(f, "hs") @@ "hd" :> P(f, "hd") @@ "ho" :> P(f, "ho"), {"hd"})
    [] x = "payload" -> Obj([y \in {"s", "i", "d", "o", "a", "ar", "m", "c"} |-> P(f, y)], {"i", "a", "o"})
Hands(f) == { x \in SchemaSlots : Form(f, x) # "inline" }
RECURSIVE Gather(_, _)
Gather(f, xs) == IF xs = {} THEN NoProps ELSE LET x == CHOOSE x \in xs : TRUE IN Left(Defs(f, x, Def(f, x)), Gather(f, xs \ {x}))
Env(f) == Gather(f, Hands(f))
TheTrait(f) == Trait(P(f, "th"), None, "")
Message(f, ver) == [headers |-> P(f, "headers"), payload |-> P(f, "payload"),
                    traits |-> IF ver = 3 THEN <<TheTrait(f)>> ELSE <<>>, corr |-> "h/s"]

Related(x, y) == x = y \/ Up[x] = y \/ Up[y] = x \/ (Up[x] # "" /\ Up[Up[x]] = y) \/ (Up[y] # "" /\ Up[Up[y]] = x)
                 \/ x \in {"op", "channel", "message"} \/ y \in {"op", "channel", "message"}
                 \/ (Up[x] = Up[y] /\ Up[x] \in {"message", "channel"})
None_ == [x \in {} |-> "inline"]
Docs ==
  {None_}
  \cup UNION { { x :> g : g \in FormsOf(x) } : x \in Slots }
  \cup { x :> g @@ y :> h : <<x, g, y, h>> \in { t \in Slots \X PairForms \X Slots \X PairForms : t[1] # t[3] /\ Related(t[1], t[3]) /\ t[2] \in FormsOf(t[1]) /\ t[4] \in FormsOf(t[3]) } }
  \cup { [x \in Slots |-> g] : g \in Forms }
  \cup { [x \in Slots \ {y} |-> g] : y \in Slots, g \in {"ref"} }
  \cup { [x \in Slots \ Only3 |-> g] : g \in Forms }
  \cup { [x \in SchemaSlots \ {"th"} |-> g] : g \in Inside \cup {"depprop"} }
NamesOf(file) == { file \o "N" \o x \o ToString(n) : x \in Slots, n \in 1..3 }
\* the names a schema refers to
RECURSIVE RefsOf(_)
RefsOf(s) ==
  CASE s.k = "ref" -> {s.to} [] s.k = "array" -> RefsOf(s.items)
    [] s.k = "object" -> UNION { RefsOf(s.props[p]) : p \in DOMAIN s.props } \cup RefsOf(s.add) \cup UNION { RefsOf(s.all[i]) : i \in 1..Len(s.all) }
    [] OTHER -> {}
VARIABLES f, ver
vars == <<f, ver>>
Init == f \in Docs /\ ver \in {2, 3} /\ (ver = 2 => DOMAIN f \cap Only3 = {} /\ \A x \in DOMAIN f : f[x] # "channel")
Next == FALSE /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars

\* References are transparent, but for an optional array, which can be told from an empty one when it is a reference
RECURSIVE Bare(_)
Bare(nf) == CASE nf.k = "object" -> [nf EXCEPT !.props = [p \in DOMAIN nf.props |-> Bare(nf.props[p])], !.add = Bare(@)]
              [] nf.k = "array" -> [k |-> "array", items |-> Bare(nf.items)]
              [] OTHER -> nf
Plain == Message(None_, ver)
Invs == LET m == Message(f, ver) e == Env(f) IN
        /\ Bare(HeadersNF(e, m)) = Bare(HeadersNF(NoProps, Plain)) /\ Bare(PayloadNF(e, m)) = Bare(PayloadNF(NoProps, Plain)) /\ Corr(e, m) = Corr(NoProps, Plain)
        \* the other files refer to nothing else
        /\ \A file \in {"Dep", "Sec"} : \A n \in DOMAIN e : n \in NamesOf(file) => RefsOf(e[n]) \subseteq NamesOf(file)
Emission == IF Emit THEN PrintT("@@" \o ToJson(
  [f |-> [x \in Slots |-> Form(f, x)], chain |-> [x \in Slots |-> [n \in 1..Links(Form(f, x)) |-> Name(f, x, n)]], ver |-> ver,
   env |-> Env(f), msg |-> Message(f, ver),
   probes |-> IF DOMAIN f = {} THEN MsgProbes(NoProps, Plain) ELSE {}, kinds |-> Kinds(NoProps, Plain)])) ELSE TRUE
=============================================================================
