------------------------------- MODULE Shape -------------------------------
(***************************************************************************)
(* What the options and the extensions make of a schema: property C20. The  *)
(* shape of the Go type (names, pointers, types) and the JSON content are    *)
(* given for every combination of the conversion of keys, the naming scheme, *)
(* forced pointers and ignored string formats.                               *)
(***************************************************************************)
EXTENDS Objects
CONSTANT Some           \* only some of the combinations of options with documents

Custom(kind) == Leaf(kind)
CustomKinds == {"uint8", "addr", "raw", "bytes"}
NamesS == Names @@ "ID" :> Row("id", "id", "Id") @@ "user2name" :> Row("user_2_name", "user-2-name", "User2Name")
          @@ "HTTPCode" :> Row("http_code", "http-code", "Httpcode")
WireS(strat, p) == IF strat = "none" \/ p \notin DOMAIN NamesS THEN p ELSE NamesS[p][strat]
\* the name of a field is the one that the key has in Go
GoName(naming, p) ==
  CASE p = "ID" -> IF naming = "camel" THEN "Id" ELSE "ID"
    [] p = "user2name" -> IF naming = "camel" THEN "User2Name" ELSE "User2name"
    [] p = "HTTPCode" -> IF naming = "camel" THEN "Httpcode" ELSE "HTTPCode"
    [] OTHER -> NamesS[p].camel

\* --- documents -------------------------------------------------------------------
EnvS == Env @@ "RCustom" :> Custom("addr") @@ "RByte" :> Custom("uint8") @@ "RHidden" :> [k |-> "rawobj"] @@ "RTo" :> Ref("RCustom")
SetsS == {"conv", "conv2", "conv3", "kinds", "refs", "omit", "names", "custom", "customrefs", "deepcustom"}
PropsS(n) ==
  CASE n = "names" -> "ID" :> Str @@ "user2name" :> Leaf("date-time") @@ "HTTPCode" :> Whole @@ "userName" :> Obj("ID" :> Bool @@ "HTTPCode" :> Leaf("date"), {"HTTPCode"})
                      @@ "x" :> Arr(Obj("user2name" :> Str, {}))
    [] n = "custom" -> "userName" :> Custom("addr") @@ "x" :> Custom("uint8") @@ "n" :> Custom("raw") @@ "on_top" :> Custom("bytes") @@ "first_name" :> Custom("addr")
                       @@ "a.b" :> Custom("uint8") @@ "ID" :> [k |-> "rawobj"] @@ "theDate" :> More(Custom("addr"), FALSE)
    [] n = "customrefs" -> "userName" :> Ref("RCustom") @@ "x" :> Ref("RByte") @@ "n" :> Ref("RHidden") @@ "a.b" :> Ref("RTo") @@ "on_top" :> Arr(Ref("RCustom")) @@ "ID" :> Ref("RHidden")
    [] n = "deepcustom" -> "x" :> Arr(Custom("addr")) @@ "n" :> Obj("userName" :> Custom("addr") @@ "x" :> Arr(Arr(Custom("addr"))), {"userName"})
                           @@ "a.b" :> Map(NoProps, {}, Custom("addr"))
    [] OTHER -> Props(n)
ReqS(n) == CASE n = "names" -> {"ID", "userName", "user2name"} [] n = "custom" -> {"userName", "x", "n", "on_top"}
             [] n = "customrefs" -> {"userName", "x", "n"} [] n = "deepcustom" -> {"n"} [] OTHER -> Req(n)
AddS(a) == CASE a = "custom" -> Custom("addr") [] OTHER -> Add(a)
PayloadS(d) == Map(PropsS(d.props), ReqS(d.props), AddS(d.add))
Options == [keys : Strategies, naming : {"none", "camel"}, force : BOOLEAN, ignore : BOOLEAN]

\* --- the Go type --------------------------------------------------------------------
Kind(o, k) == IF k \in {"date", "date-time"} /\ o.ignore THEN "string" ELSE IF k \in {"true", "any"} THEN "any" ELSE IF k = "rawobj" THEN "raw" ELSE k
\* optional ("" for what is not judged), or forced: arrays never are, and an array that is referenced may be
Pointer(o, s, p) == IF s.props[p].k = "array" THEN FALSE ELSE o.force \/ p \notin s.req
OmitEmpty(s, p) == IF "more" \in DOMAIN s.props[p] THEN s.props[p].more["x-omitempty"] ELSE p \notin s.req
RECURSIVE Go(_, _)
Go(o, s0) ==
  LET s == Resolve(EnvS, s0) IN
  CASE s.k = "object" ->
         [go |-> "struct", more |-> IF s.add.k \in {"none", "false"} THEN [go |-> ""] ELSE Go(o, s.add),
          fields |-> { [name |-> GoName(o.naming, p), key |-> WireS(o.keys, p), omit |-> OmitEmpty(s, p), type |-> Go(o, s.props[p]),
                        pointer |-> IF s.props[p].k = "ref" /\ Resolve(EnvS, s.props[p]).k = "array" THEN "any" ELSE ToString(Pointer(o, s, p))]
                       : p \in DOMAIN s.props }]
    [] s.k = "array" -> [go |-> "array", items |-> Go(o, s.items)]
    [] OTHER -> [go |-> Kind(o, s.k)]

\* --- the JSON content ---------------------------------------------------------------
RECURSIVE NFS(_, _)
NFS(o, s0) ==
  LET s == Resolve(EnvS, s0) IN
  CASE s.k = "object" ->
         LET inv == [w \in { WireS(o.keys, p) : p \in DOMAIN s.props } |-> CHOOSE p \in DOMAIN s.props : WireS(o.keys, p) = w]
             omit(p) == IF "more" \in DOMAIN s.props[p] THEN (IF s.props[p].more["x-omitempty"] THEN "true" ELSE "false") ELSE ""
             nf(p) == NFS(o, s.props[p])
             ptr(p) == o.force /\ nf(p).k # "array"
         IN [k |-> "object", req |-> { WireS(o.keys, p) : p \in s.req }, add |-> IF s.add.k \in {"none", "false"} THEN None ELSE NFS(o, s.add),
             props |-> [w \in DOMAIN inv |-> [f \in DOMAIN nf(inv[w]) \cup {"omit"} \cup (IF ptr(inv[w]) THEN {"forced"} ELSE {}) |->
                                               IF f = "omit" THEN omit(inv[w]) ELSE IF f = "forced" THEN "yes" ELSE nf(inv[w])[f]]]]
    [] s.k = "array" -> [k |-> "array", items |-> NFS(o, s.items)]
    [] OTHER -> [k |-> Kind(o, s.k)]
ProbesS(nf) == { Probe13(nf, v) : v \in Probes(nf) } \cup { p \in KeyProbes(nf) : p.set.from = "" }

DocsS == { [props |-> p, add |-> a, opts |-> o] : p \in SetsS, a \in {"none", "date-time", "custom", "ref"}, o \in Options }
ChosenS == { d \in DocsS : ~Some \/ d.add = "none" \/ d.props \in {"conv", "names"} }
InitS == doc \in { [group |-> o] : o \in Options }
NextS == \E d \in ChosenS : doc = [group |-> d.opts] /\ doc' = d
SpecS == InitS /\ [][NextS]_doc
\* the options that have nothing to do with the wire do not change it
Neutral == Chosen => /\ NFS([doc.opts EXCEPT !.naming = "none"], PayloadS(doc)) = NFS(doc.opts, PayloadS(doc))
\* the keys have nothing to do with the structure
RECURSIVE NoKeys(_)
NoKeys(g) == CASE g.go = "struct" -> [go |-> "struct", more |-> NoKeys(g.more), fields |-> { [f EXCEPT !.key = "", !.type = NoKeys(f.type)] : f \in g.fields }]
               [] g.go = "array" -> [go |-> "array", items |-> NoKeys(g.items)]
               [] OTHER -> g
Shaped == Chosen => NoKeys(Go([doc.opts EXCEPT !.keys = "none"], PayloadS(doc))) = NoKeys(Go(doc.opts, PayloadS(doc)))
Forced == Chosen /\ doc.opts.force => \A f \in Go(doc.opts, PayloadS(doc)).fields : f.pointer = "TRUE" \/ f.type.go = "array"
EmissionS == Chosen => PrintT("@@" \o ToJson([d |-> doc, env |-> EnvS, msg |-> Msg(None, PayloadS(doc)), go |-> Go(doc.opts, PayloadS(doc)),
                                               probes |-> { Write(p) : p \in ProbesS(NFS(doc.opts, PayloadS(doc))) }]))

\* --- imports of custom types: wherever the only custom type is ------------------------
C == Custom("alias")
Wheres == {"prop", "items", "add", "allof", "anyof", "oneof", "nested", "nestedadd", "arrays", "ref", "refadd", "refitems"}
Messages == {"component", "inline", "trait", "dep"}
Imported(w) ==
  CASE w = "prop" -> Obj("x" :> C, {}) [] w = "items" -> Obj("x" :> Arr(C), {"x"}) [] w = "add" -> Map(NoProps, {}, C)
    [] w = "allof" -> AllOf("n" :> Whole, {}, <<Obj("x" :> C, {"x"})>>) [] w = "anyof" -> AnyOf("n" :> Whole, {}, <<Obj("x" :> C, {})>>)
    [] w = "oneof" -> OneOf("n" :> Whole, {}, <<Obj("x" :> C, {}), Obj("userName" :> Str, {})>>)
    [] w = "nested" -> Obj("n" :> Obj("x" :> C, {}), {}) [] w = "nestedadd" -> Obj("n" :> Map("x" :> Str, {}, Map(NoProps, {}, C)), {"n"})
    [] w = "arrays" -> Obj("n" :> Arr(Arr(Obj("x" :> C, {}))), {}) [] w = "ref" -> Obj("x" :> Ref("RAlias"), {})
    [] w = "refadd" -> Obj("n" :> Ref("RAliasMap"), {}) [] w = "refitems" -> Obj("n" :> Arr(Ref("RAliasIn")), {})
EnvI == "RAlias" :> C @@ "RAliasMap" :> Map(NoProps, {}, C) @@ "RAliasIn" :> Obj("x" :> Arr(C), {})
\* what else imports the package: nothing, or a component, with the same name or another
Others == {"none", "same", "unnamed", "other"}
InitI == doc \in { [where |-> w, message |-> m, other |-> o] : w \in Wheres, m \in Messages, o \in Others }
AcceptedI(d) == d.other \in {"none", "same"}
SpecI == InitI /\ [][UNCHANGED doc]_doc
EmissionI == PrintT("@@" \o ToJson([d |-> doc, accept |-> AcceptedI(doc), env |-> EnvI, msg |-> Msg(None, Imported(doc.where)),
                                    probes |-> { Write(Probe13(NF(EnvI, Imported(doc.where)), v)) : v \in Probes(NF(EnvI, Imported(doc.where))) }]))
=============================================================================
