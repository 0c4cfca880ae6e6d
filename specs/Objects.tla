------------------------------ MODULE Objects ------------------------------
(***************************************************************************)
(* The JSON content of objects: property C13. Keys converted by the chosen  *)
(* strategy, required and optional properties (extension x-omitempty        *)
(* included), additional properties that are next to the declared ones      *)
(* whatever their names, objects anywhere in the payload.                   *)
(***************************************************************************)
EXTENDS Schema
CONSTANTS Full2, Emit

Str == Leaf("string")
Whole == Leaf("integer")
Bool == Leaf("boolean")
More(s, omit) == [x \in DOMAIN s \cup {"more"} |-> IF x = "more" THEN "x-omitempty" :> omit ELSE s[x]]

\* --- names of properties, and what the strategies make of them ---------------------
Strategies == {"none", "snake", "kebab", "camel"}
Row(s, k, c) == [snake |-> s, kebab |-> k, camel |-> c]
Names ==
  "userName" :> Row("user_name", "user-name", "UserName") @@ "first_name" :> Row("first_name", "first-name", "FirstName")
  @@ "last-name" :> Row("last_name", "last-name", "LastName") @@ "PostalCode" :> Row("postal_code", "postal-code", "PostalCode")
  @@ "big city" :> Row("big_city", "big-city", "BigCity") @@ "a.b" :> Row("a_b", "a-b", "AB") @@ "n" :> Row("n", "n", "N")
  @@ "x" :> Row("x", "x", "X") @@ "deepValue" :> Row("deep_value", "deep-value", "DeepValue") @@ "on_top" :> Row("on_top", "on-top", "OnTop")
  @@ "theDate" :> Row("the_date", "the-date", "TheDate") @@ "anything" :> Row("anything", "anything", "Anything")
Wire(strat, p) == IF strat = "none" \/ p \notin DOMAIN Names THEN p ELSE Names[p][strat]

RECURSIVE NFJ(_, _, _)
NFJ(env, strat, s0) ==
  LET s == Resolve(env, s0) IN
  CASE s.k = "object" ->
         LET inv == [w \in { Wire(strat, p) : p \in DOMAIN s.props } |-> CHOOSE p \in DOMAIN s.props : Wire(strat, p) = w]
             omit(p) == IF "more" \in DOMAIN s.props[p] THEN (IF s.props[p].more["x-omitempty"] THEN "true" ELSE "false") ELSE ""
             nf(p) == Pointed(s.props[p], NFJ(env, strat, s.props[p]))
         IN [k |-> "object", req |-> { Wire(strat, p) : p \in s.req }, add |-> IF s.add.k \in {"none", "false"} THEN None ELSE NFJ(env, strat, s.add),
             props |-> [w \in DOMAIN inv |-> [f \in DOMAIN nf(inv[w]) \cup {"omit"} |-> IF f = "omit" THEN omit(inv[w]) ELSE nf(inv[w])[f]]]]
    [] s.k = "array" -> [k |-> "array", items |-> NFJ(env, strat, s.items)]
    [] s.k = "true" -> [k |-> "any"]
    [] OTHER -> [k |-> s.k]

\* --- documents ---------------------------------------------------------------------
Env == "RObj" :> Obj("userName" :> Str @@ "x" :> Whole, {"userName"}) @@ "RStr" :> Str @@ "RDate" :> Leaf("date-time") @@ "RDay" :> Leaf("date")
       @@ "RArr" :> Arr(Obj("on_top" :> Str, {"on_top"})) @@ "RMap" :> Map("n" :> Bool, {}, Whole) @@ "RChain" :> Ref("RObj") @@ "RInt" :> Leaf("int32")
PropSets == {"conv", "conv2", "conv3", "special", "empty", "kinds", "refs", "deep", "omit", "omit2"}
Props(n) ==
  CASE n = "conv" -> "userName" :> Str @@ "first_name" :> Whole @@ "n" :> Bool
    [] n = "conv2" -> "last-name" :> Str @@ "big city" :> Arr(Str) @@ "PostalCode" :> Leaf("int32")
    [] n = "conv3" -> "a.b" :> Leaf("number") @@ "x" :> Obj("deepValue" :> Str @@ "n" :> Obj("on_top" :> Str, {}), {"deepValue"})
    [] n = "special" -> "@type" :> Str @@ "a/b" :> Str @@ "~t~" :> Str @@ "2fa" :> Bool @@ "c:d;e" :> Leaf("date-time") @@ "f%d" :> Str
                        @@ "{y}" :> Whole @@ "g=h+[i]" :> Str @@ "range" :> Str @@ "_hidden" :> Str @@ "$z!#(w)*" :> Str
    [] n = "empty" -> NoProps
    [] n = "kinds" -> "anything" :> Leaf("any") @@ "theDate" :> Leaf("date") @@ "a.b" :> Leaf("date-time") @@ "x" :> Leaf("float") @@ "n" :> Arr(Leaf("any"))
                      @@ "userName" :> Leaf("date") @@ "on_top" :> Leaf("any") @@ "last-name" :> [k |-> "true"] @@ "big city" :> Arr([k |-> "true"])
    [] n = "refs" -> "userName" :> Ref("RObj") @@ "first_name" :> Ref("RStr") @@ "last-name" :> Ref("RDate") @@ "x" :> Ref("RArr") @@ "n" :> Ref("RMap")
                     @@ "a.b" :> Arr(Ref("RObj")) @@ "theDate" :> Ref("RDay") @@ "big city" :> Ref("RChain") @@ "on_top" :> Ref("RInt")
    [] n = "deep" -> "x" :> Arr(Arr(Obj("userName" :> Str, {"userName"}))) @@ "n" :> Arr(Arr(Whole))
                     @@ "on_top" :> Obj("x" :> Obj("n" :> Obj("deepValue" :> Arr(Obj("userName" :> Str, {})), {"deepValue"}), {}), {"x"})
    [] n = "omit" -> "userName" :> More(Str, TRUE) @@ "first_name" :> More(Whole, TRUE) @@ "n" :> More(Bool, FALSE) @@ "x" :> More(Str, FALSE)
                     @@ "a.b" :> More(Arr(Str), TRUE) @@ "theDate" :> More(Leaf("date-time"), FALSE)
    [] n = "omit2" -> "userName" :> More(Str, FALSE) @@ "first_name" :> More(Leaf("float"), TRUE) @@ "n" :> More(Obj("x" :> More(Str, TRUE), {"x"}), TRUE)
                      @@ "x" :> More(Obj("n" :> Str, {}), FALSE) @@ "theDate" :> More(Leaf("date-time"), TRUE)
Req(n) ==
  CASE n = "conv" -> {"userName", "n"} [] n = "conv2" -> {"PostalCode"} [] n = "special" -> {"@type", "f%d", "2fa", "{y}", "_hidden"}
    [] n = "kinds" -> {"x", "userName", "on_top"} [] n = "refs" -> {"userName", "first_name", "last-name", "x", "theDate"} [] n = "deep" -> {"x"}
    [] n = "omit" -> {"userName", "first_name", "a.b"} [] n = "omit2" -> {"userName", "first_name", "n", "theDate"} [] OTHER -> {}
Adds == {"none", "string", "integer", "boolean", "number", "date-time", "date", "any", "true", "false", "object", "strings", "objects", "ref", "refstr", "refdate", "map", "reqmap", "chain", "nested"}
Add(a) ==
  CASE a = "none" -> None [] a \in {"true", "false"} -> [k |-> a]
    [] a = "object" -> Obj("userName" :> Str @@ "x" :> Whole, {"userName"})
    [] a = "strings" -> Arr(Str)
    [] a = "objects" -> Arr(Obj("on_top" :> Str, {}))
    [] a = "ref" -> Ref("RObj") [] a = "refstr" -> Ref("RStr") [] a = "refdate" -> Ref("RDate") [] a = "reqmap" -> Ref("RMap") [] a = "chain" -> Ref("RChain")
    [] a = "map" -> Map(NoProps, {}, Bool)
    [] a = "nested" -> Map("first_name" :> Str, {"first_name"}, Map("n" :> Whole, {}, Str))
    [] OTHER -> Leaf(a)
Places == {"payload", "reqprop", "optprop", "items", "items2", "ref", "chain", "add"}
Object(d) == Map(Props(d.props), Req(d.props), Add(d.add))
EnvOf(d) == Env @@ ("Target" :> Object(d)) @@ ("Chain" :> Ref("Target"))
Payload(d) ==
  CASE d.place = "payload" -> Object(d)
    [] d.place = "reqprop" -> Obj("on_top" :> Object(d), {"on_top"})
    [] d.place = "optprop" -> Obj("on_top" :> Object(d) @@ "x" :> Whole, {})
    [] d.place = "items" -> Obj("x" :> Arr(Object(d)), {"x"})
    [] d.place = "items2" -> Obj("x" :> Arr(Arr(Object(d))), {"x"})
    [] d.place = "ref" -> Obj("x" :> Ref("Target") @@ "n" :> Arr(Ref("Target")), {"x"})
    [] d.place = "chain" -> Ref("Chain")
    [] d.place = "add" -> Map("n" :> Str, {}, Object(d))
Docs ==
  { [props |-> p, add |-> a, place |-> "payload", strat |-> "none"] : p \in PropSets, a \in Adds }
  \cup { [props |-> "conv", add |-> a, place |-> pl, strat |-> "none"] : a \in Adds, pl \in Places }
  \cup { [props |-> p, add |-> a, place |-> pl, strat |-> st] :
           p \in {"conv", "conv2", "conv3", "kinds", "refs", "deep", "omit"}, a \in {"none", "string", "object"}, st \in Strategies,
           pl \in IF Full2 THEN Places ELSE {"payload", "ref"} }
  \cup { [props |-> p, add |-> a, place |-> pl, strat |-> "none"] : p \in PropSets, a \in IF Full2 THEN Adds ELSE {"none", "any", "nested"}, pl \in Places }

\* --- additional properties whatever their names ----------------------------------------
Keys == {"", "username", "USERNAME", "UserName", "userName", "user_name", "user-name", "first_name", "FIRST_NAME", "n", "N", " n", "x", "X", "AdditionalProperties",
         "additionalProperties", "null", "q\"u\\o", "<&>", "line\nend", "~", "%s", "a,b", "-", "Type", "omitempty"}
\* a value of the additional properties is put under a key, on reception (in) or in the structure that is sent (out)
Probe13(nf, v) == LET e == Echo(nf, v) IN [p |-> v, ok |-> e.ok, ep |-> e.v, set |-> [key |-> "", from |-> ""]]
KeyProbes(nf) ==
  IF nf.k # "object" \/ nf.add.k = "none" THEN {}
  ELSE LET f == FullV(nf, 1) m == MinV(nf) IN
       UNION { { Probe13(nf, O(With(b.m, k, FullV(nf.add, 1)))) : b \in {f, m} } : k \in Keys \ DOMAIN nf.props }
       \cup UNION { { [Probe13(nf, b) EXCEPT !.set = [key |-> k, from |-> Extra],
                                             !.ep = IF k \in DOMAIN nf.props THEN Echo(nf, b).v ELSE O(With(Echo(nf, b).v.m, k, Echo(nf, b).v.m[Extra]))]
                      : b \in {f, O(With(m.m, Extra, FullV(nf.add, 1)))} } : k \in Keys \cup DOMAIN nf.props }
       \cup { [Probe13(nf, b) EXCEPT !.set = [key |-> "", from |-> "@nil"], !.ep = O([x \in DOMAIN Echo(nf, b).v.m \cap DOMAIN nf.props |-> Echo(nf, b).v.m[x]])] : b \in {f, m} }
\* null is the absence of an optional property
NullProbes(nf) ==
  IF nf.k # "object" THEN {}
  ELSE { [Probe13(nf, O(With(FullV(nf, 1).m, p, V("null")))) EXCEPT !.ok = TRUE, !.ep = Echo(nf, O(Without(FullV(nf, 1).m, p))).v]
           : p \in (DOMAIN nf.props \ nf.req) }
Zeros(nf) ==
  IF nf.k # "object" THEN {}
  ELSE { Probe13(nf, O(With(FullV(nf, 1).m, p, IF nf.props[p].k = "array" THEN A(<<>>) ELSE V(Zero(nf.props[p].k)))))
           : p \in { p \in DOMAIN nf.props : nf.props[p].k \notin {"object", "any", "date"} /\ (nf.props[p].k = "array" => p \in nf.req) } }
Probes13(d) ==
  LET nf == NFJ(EnvOf(d), d.strat, Payload(d)) IN
  { Probe13(nf, v) : v \in Probes(nf) } \cup KeyProbes(nf) \cup NullProbes(nf) \cup Zeros(nf)

VARIABLE doc
Groups == { [props |-> p, place |-> pl, strat |-> st] : p \in PropSets, pl \in Places, st \in Strategies }
Init == doc \in { [group |-> g] : g \in Groups }
Next == \E d \in Docs : doc = [group |-> [props |-> d.props, place |-> d.place, strat |-> d.strat]] /\ doc' = d
Spec == Init /\ [][Next]_doc
Chosen == "group" \notin DOMAIN doc
NF13(d) == NFJ(EnvOf(d), d.strat, Payload(d))
\* what is sent is received, and sent again, as it was
Stable(nf, ps) == \A p \in ps : p.ok /\ p.set.from = "" => Echo(nf, p.ep).v = p.ep \/ doc.props \in {"omit", "omit2"}
\* no undeclared key without additional properties
Exact(nf, ps) == nf.k = "object" /\ nf.add.k = "none" => \A p \in ps : p.ok => DOMAIN p.ep.m \subseteq DOMAIN nf.props
Write(p) == [p |-> Text(p.p), ok |-> p.ok, ep |-> Text(p.ep), set |-> p.set]
Invs == Chosen => LET nf == NF13(doc) ps == Probes13(doc) IN
                  Stable(nf, ps) /\ Exact(nf, ps) /\
                  (Emit => PrintT("@@" \o ToJson([d |-> doc, env |-> EnvOf(doc), msg |-> Msg(None, Payload(doc)), probes |-> { Write(p) : p \in ps }])))
=============================================================================
