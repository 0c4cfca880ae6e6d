------------------------------ MODULE Schema ------------------------------
(***************************************************************************)
(* What the schemas of a document mean for the messages on the wire.        *)
(*                                                                          *)
(* A schema is the abstract syntax of what is in the document: leaves,      *)
(* objects (with composition), arrays and references. NF gives its meaning  *)
(* (references followed, composition resolved), and Echo tells what becomes *)
(* of a JSON value that is received then sent again with the generated      *)
(* types: an error, or a value with exactly the keys of the schema.         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

\* --- Syntax ---------------------------------------------------------------
Leaf(kind) == [k |-> kind]
None == [k |-> "none"]
NoProps == [x \in {} |-> None]
Full(props, req, add, all, any, one) ==
  [k |-> "object", props |-> props, req |-> req, add |-> add, all |-> all, any |-> any, one |-> one]
Obj(props, req) == Full(props, req, None, <<>>, <<>>, <<>>)
Map(props, req, add) == Full(props, req, add, <<>>, <<>>, <<>>)
AllOf(props, req, s) == Full(props, req, None, s, <<>>, <<>>)
AnyOf(props, req, s) == Full(props, req, None, <<>>, s, <<>>)
OneOf(props, req, s) == Full(props, req, None, <<>>, <<>>, s)
Arr(s) == [k |-> "array", items |-> s]
Ref(n) == [k |-> "ref", to |-> n]
LeafKinds == {"string", "integer", "int32", "number", "float", "boolean", "date-time", "date", "any"}

\* --- Meaning --------------------------------------------------------------
SeqSet(s) == { s[i] : i \in 1..Len(s) }
Left(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN f THEN f[x] ELSE g[x]]
RECURSIVE Resolve(_, _)
Resolve(env, s) == IF s.k = "ref" THEN Resolve(env, env[s.to]) ELSE s
\* the field of a reference to an array is a pointer when it is optional, hence told from an empty array
Pointed(s, nf) == IF s.k = "ref" /\ nf.k = "array" THEN [k |-> "array", items |-> nf.items, ref |-> TRUE] ELSE nf
RECURSIVE NF(_, _), Union(_, _, _)
\* n is [props, req]: the properties that are already there win
Union(env, n, subs) ==
  IF subs = <<>> THEN n
  ELSE LET m == NF(env, Head(subs)) IN
       Union(env, [props |-> Left(n.props, m.props), req |-> n.req \cup m.req], Tail(subs))
NF(env, s0) ==
  LET s == Resolve(env, s0) IN
  CASE s.k = "object" ->
         LET own == [props |-> [p \in DOMAIN s.props |-> Pointed(s.props[p], NF(env, s.props[p]))], req |-> s.req]
             u == Union(env, own, s.all \o s.any \o s.one)
         IN [k |-> "object", props |-> u.props, req |-> u.req, add |-> IF s.add.k = "none" THEN None ELSE NF(env, s.add)]
    [] s.k = "array" -> [k |-> "array", items |-> NF(env, s.items)]
    [] OTHER -> [k |-> s.k]

\* --- Values ---------------------------------------------------------------
V(text) == [t |-> "leaf", v |-> text]
O(m) == [t |-> "obj", m |-> m]
A(s) == [t |-> "arr", s |-> s]
\* the JSON text of a value
RECURSIVE Text(_), Join(_)
Join(s) == IF s = <<>> THEN "" ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o "," \o Join(Tail(s))
RECURSIVE SetSeq(_)
SetSeq(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o SetSeq(s \ {x})
Text(v) == CASE v.t = "leaf" -> v.v
             [] v.t = "arr" -> "[" \o Join([i \in 1..Len(v.s) |-> Text(v.s[i])]) \o "]"
             [] v.t = "obj" -> LET ks == SetSeq(DOMAIN v.m) IN
                               "{" \o Join([i \in 1..Len(ks) |-> ToJson(ks[i]) \o ":" \o Text(v.m[ks[i]])]) \o "}"
Good(kind) ==
  CASE kind = "string" -> <<"\"text\"", "\"\"", "\"a \\\"quoted\\\" \\\\ ~ <tag> & \\n\\u0000 line\"", "\"2024-01-02\"">>
    [] kind = "integer" -> <<"42", "0", "-9223372036854775808", "9223372036854775807">>
    [] kind = "int32" -> <<"7", "0", "-2147483648", "2147483647">>
    [] kind = "number" -> <<"2.5", "0", "-1.7976931348623157e308", "5e-324">>
    [] kind = "float" -> <<"0.5", "0", "-3.4028235e38", "1e-45">>
    [] kind = "boolean" -> <<"true", "false", "true", "false">>
    [] kind = "date-time" -> <<"\"2024-02-29T12:30:00Z\"", "\"0001-01-01T00:00:00Z\"", "\"1999-12-31T23:59:59.123456789+02:00\"", "\"9999-12-31T23:59:59Z\"">>
    [] kind = "date" -> <<"\"2024-02-29\"", "\"0001-01-01\"", "\"1999-12-31\"", "\"9999-12-31\"">>
    [] kind \in {"any", "raw"} -> <<"\"free\"", "12", "{\"a\":[1,null,\"b\"]}", "false">>
    [] kind = "uint8" -> <<"42", "0", "255", "1">>
    [] kind \in {"addr", "alias"} -> <<"\"10.0.0.1\"", "\"\"", "\"2001:db8::1\"", "\"255.255.255.255\"">>
    [] kind = "bytes" -> <<"\"dGV4dA==\"", "\"\"", "\"AA==\"", "\"//79\"">>
NGood == 4
Wrong(kind) ==
  CASE kind = "string" -> {"5", "false", "{}", "[]"}
    [] kind = "integer" -> {"\"5\"", "1.5", "9223372036854775808", "true"}
    [] kind = "int32" -> {"\"5\"", "1.5", "2147483648", "-2147483649", "{}"}
    [] kind = "number" -> {"\"5\"", "true", "1e400", "[]"}
    [] kind = "float" -> {"\"5\"", "true", "1e39"}
    [] kind = "boolean" -> {"\"true\"", "1", "{}"}
    [] kind = "date-time" -> {"\"2024-02-30T12:30:00Z\"", "\"2024-02-29\"", "\"\"", "5"}
    [] kind = "date" -> {"\"2024-02-30\"", "\"2024-02-29T12:30:00Z\"", "5"}
    [] kind \in {"any", "raw"} -> {}
    [] kind = "uint8" -> {"\"5\"", "256", "-1", "1.5"}
    [] kind \in {"addr", "alias"} -> {"\"10.0.0.256\"", "5", "{}"}
    [] kind = "bytes" -> {"\"?\"", "5", "{}"}
Zero(kind) ==
  CASE kind \in {"string", "addr", "alias"} -> "\"\"" [] kind \in {"integer", "int32", "number", "float", "uint8"} -> "0" [] kind = "boolean" -> "false"
    [] kind = "date-time" -> "\"0001-01-01T00:00:00Z\""
\* whether the field is a pointer though it is required: its absence can be told
Forced0(nf) == "forced" \in DOMAIN nf
\* whether the zero value of the Go type is a value of the schema
RECURSIVE HasZero(_)
HasZero(nf) == CASE Forced0(nf) -> TRUE
                 [] nf.k \in {"any", "date", "array", "raw", "bytes"} -> FALSE
                 [] nf.k = "object" -> \A p \in nf.req \cap DOMAIN nf.props : HasZero(nf.props[p])
                 [] OTHER -> TRUE

\* --- Received then sent again -----------------------------------------------
Err == [ok |-> FALSE, v |-> V("")]
Ok(v) == [ok |-> TRUE, v |-> v]
\* extension x-omitempty of a property: the required ones can be omitted when they have the zero value, and
\* the optional ones can be null instead of being absent
Omit(nf) == IF "omit" \in DOMAIN nf THEN nf.omit ELSE ""
Dropped(nf, p, v) == p \in nf.req /\ ~Forced0(nf.props[p]) /\ Omit(nf.props[p]) = "true" /\ nf.props[p].k \notin {"object", "date-time", "date", "any"} /\
                     (v = A(<<>>) \/ (nf.props[p].k \notin {"array"} /\ v = V(Zero(nf.props[p].k))))
RECURSIVE ZeroOf(_)
ZeroOf(nf) ==
  IF nf.k = "array" THEN A(<<>>)
  ELSE IF nf.k # "object" THEN V(Zero(nf.k))
  ELSE LET kept == { p \in nf.req \cap DOMAIN nf.props : ~Dropped(nf, p, ZeroOf(nf.props[p])) }
           nulls == { p \in DOMAIN nf.props \ nf.req : Omit(nf.props[p]) = "false" }
       IN O([p \in kept \cup nulls |-> IF p \in nulls THEN V("null") ELSE ZeroOf(nf.props[p])])
RECURSIVE Echo(_, _)
Echo(nf, v) ==
  CASE nf.k = "object" ->
         IF v.t # "obj" THEN Err
         ELSE LET known == DOMAIN v.m \cap DOMAIN nf.props
                  extra == IF nf.add.k = "none" THEN {} ELSE DOMAIN v.m \ DOMAIN nf.props
                  missing == DOMAIN nf.props \ DOMAIN v.m
                  e == [x \in known \cup extra |-> Echo(IF x \in known THEN nf.props[x] ELSE nf.add, v.m[x])]
                  filled == { x \in missing : x \in nf.req /\ ~Forced0(nf.props[x]) /\ ~Dropped(nf, x, ZeroOf(nf.props[x])) }
                  nulls == { x \in missing : IF x \in nf.req THEN Forced0(nf.props[x]) /\ Omit(nf.props[x]) # "true" ELSE Omit(nf.props[x]) = "false" }
                  kept == { x \in DOMAIN e : x \in extra \/ ~Dropped(nf, x, e[x].v) }
              IN IF \E x \in DOMAIN e : ~e[x].ok THEN Err
                 ELSE Ok(O([x \in kept \cup filled \cup nulls |->
                            IF x \in nulls THEN V("null") ELSE IF x \in filled THEN ZeroOf(nf.props[x]) ELSE e[x].v]))
    [] nf.k = "array" ->
         IF v.t # "arr" THEN Err
         ELSE LET e == [i \in 1..Len(v.s) |-> Echo(nf.items, v.s[i])] IN
              IF \E i \in DOMAIN e : ~e[i].ok THEN Err ELSE Ok(A([i \in DOMAIN e |-> e[i].v]))
    [] nf.k = "any" -> Ok(v)
    [] OTHER -> IF v.t = "leaf" /\ v.v \in SeqSet(Good(nf.k)) THEN Ok(v) ELSE Err

\* --- Probes ---------------------------------------------------------------
Extra == "zz Extra-1"
\* every property set, the leaves having their nth value
RECURSIVE FullV(_, _)
FullV(nf, n) ==
  CASE nf.k = "object" -> LET f == [p \in DOMAIN nf.props |-> FullV(nf.props[p], n)] IN
                          O(IF nf.add.k = "none" THEN f ELSE Left(f, (Extra :> FullV(nf.add, n)) @@ ("a\"\\~" :> FullV(nf.add, n))))
    [] nf.k = "array" -> A([i \in 1..(((n - 1) % 3) + 1) |-> FullV(nf.items, ((n + i - 2) % NGood) + 1)])
    [] OTHER -> V(Good(nf.k)[n])
\* only the required properties
RECURSIVE MinV(_)
MinV(nf) == CASE nf.k = "object" -> O([p \in nf.req \cap DOMAIN nf.props |-> MinV(nf.props[p])])
              [] nf.k = "array" -> A(<<>>)
              [] OTHER -> V(Good(nf.k)[1])
Without(m, p) == [x \in DOMAIN m \ {p} |-> m[x]]
With(m, p, v) == [x \in DOMAIN m \cup {p} |-> IF x = p THEN v ELSE m[x]]
\* one thing changed somewhere in a value
RECURSIVE Muts(_, _)
Muts(nf, v) ==
  CASE nf.k = "object" ->
         { O(Without(v.m, p)) : p \in { p \in DOMAIN v.m \cap DOMAIN nf.props : p \in nf.req => HasZero(nf.props[p]) } }
         \cup UNION { { O(With(v.m, p, w)) : w \in Muts(nf.props[p], v.m[p]) } : p \in DOMAIN v.m \cap DOMAIN nf.props }
         \cup { O(With(v.m, p, A(<<>>))) : p \in { p \in DOMAIN v.m \cap DOMAIN nf.props : nf.props[p].k = "array" /\ (p \in nf.req \/ "ref" \in DOMAIN nf.props[p]) } }
         \cup (IF nf.add.k = "none" THEN {O(With(v.m, Extra, V("\"dropped\"")))}
               ELSE { O(With(v.m, Extra, w)) : w \in Muts(nf.add, v.m[Extra]) } \cup {O(Without(v.m, Extra))})
         \cup {V("\"not an object\""), A(<<v>>)}
    [] nf.k = "array" ->
         { A([v.s EXCEPT ![1] = w]) : w \in Muts(nf.items, v.s[1]) } \cup {A(v.s \o v.s), A(<<v.s[1]>>), V("\"not an array\""), O(NoProps)}
    [] OTHER -> { V(x) : x \in Wrong(nf.k) }
Probes(nf) == { FullV(nf, n) : n \in 1..NGood } \cup {MinV(nf)} \cup Muts(nf, FullV(nf, 1))

\* --- Messages -------------------------------------------------------------
\* headers and payload may be None, traits is a sequence of names of the environment (or traits), corr is the
\* header of the correlation ID, or ""
Msg(h, p) == [headers |-> h, payload |-> p, traits |-> <<>>, corr |-> ""]
Trait(h, p, corr) == [k |-> "trait", headers |-> h, payload |-> p, corr |-> corr]
TraitRef(n) == [k |-> "traitref", to |-> n]
\* a message that is one of several (field one): messages, or names of messages of the environment
MsgRef(n) == [k |-> "msgref", to |-> n]
RECURSIVE TheMsg(_, _)
TheMsg(env, m) == IF "to" \in DOMAIN m THEN TheMsg(env, env[m.to]) ELSE m
RECURSIVE PartOf(_, _, _)
PartOf(env, x, part) ==
  LET m == TheMsg(env, x)
      ps == SelectSeq(<<m[part]>> \o (IF "one" \in DOMAIN m THEN [i \in 1..Len(m.one) |-> PartOf(env, m.one[i], part)] ELSE <<>>),
                      LAMBDA s : s.k # "none")
  IN IF ps = <<>> THEN None ELSE IF Len(ps) = 1 THEN ps[1] ELSE AllOf(NoProps, {}, ps)
RECURSIVE OfTrait(_, _, _)
OfTrait(env, t, part) == IF t.k = "traitref" THEN OfTrait(env, env[t.to], part) ELSE t[part]
Merge(env, own, traits, part) ==
  LET parts == SelectSeq([i \in 1..Len(traits) |-> OfTrait(env, traits[i], part)], LAMBDA s : s.k # "none")
      all == IF own.k = "none" THEN parts ELSE <<own>> \o parts
  IN IF all = <<>> THEN None
     ELSE IF Len(all) = 1 THEN NF(env, all[1])
     ELSE LET first == NF(env, all[1])
              u == Union(env, [props |-> first.props, req |-> first.req], Tail(all))
          IN [k |-> "object", props |-> u.props, req |-> u.req, add |-> first.add]
\* its own correlation ID, or the one of an alternative, or the one of a trait
RECURSIVE Concat(_), AllCorrs(_, _)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
AllCorrs(env, m0) ==
  LET m == TheMsg(env, m0)
      alts == IF "one" \in DOMAIN m THEN Concat([i \in 1..Len(m.one) |-> AllCorrs(env, m.one[i])]) ELSE <<>>
  IN SelectSeq(<<m.corr>> \o alts \o [i \in 1..Len(m.traits) |-> OfTrait(env, m.traits[i], "corr")], LAMBDA c : c # "")
Corr(env, m) == LET all == AllCorrs(env, m) IN IF all = <<>> THEN "" ELSE Head(all)
HeadersNF(env, m) ==
  LET h == Merge(env, PartOf(env, m, "headers"), TheMsg(env, m).traits, "headers") c == Corr(env, m) IN
  IF c = "" THEN h
  ELSE IF h.k = "none" THEN [k |-> "object", props |-> c :> [k |-> "string"], req |-> {}, add |-> None]
  ELSE [h EXCEPT !.props = Left(@, c :> [k |-> "string"])]
PayloadNF(env, m) == Merge(env, PartOf(env, m, "payload"), TheMsg(env, m).traits, "payload")

\* Headers are not JSON values: any bytes are a string
HMuts(nf, v) ==
  { O(Without(v.m, p)) : p \in DOMAIN v.m }
  \cup UNION { { O(With(v.m, p, w)) : w \in Muts(nf.props[p], v.m[p]) } : p \in { p \in DOMAIN v.m : nf.props[p].k # "string" } }
  \cup {O(With(v.m, Extra, V("\"dropped\"")))}
HProbes(nf) == { FullV(nf, n) : n \in 1..NGood } \cup {MinV(nf)} \cup HMuts(nf, FullV(nf, 1))
NoHeaders == O(NoProps)
\* what is received, and what is sent again: with a fresh correlation ID if there should be one and there is not
Fresh == V("@fresh")
Correlated(c, h) == IF c = "" \/ (c \in DOMAIN h.m /\ h.m[c] # V("\"\"")) THEN h ELSE O(With(h.m, c, Fresh))
Probe(c, hn, pn, h, p) ==
  LET eh == IF hn.k = "none" THEN Ok(NoHeaders) ELSE Echo(hn, h)
      ep == Echo(pn, p)
  IN [h |-> h, p |-> p, ok |-> eh.ok /\ ep.ok, eh |-> IF eh.ok THEN Correlated(c, eh.v) ELSE eh.v, ep |-> ep.v]
MsgProbes(env, m) ==
  LET hn == HeadersNF(env, m) pn == PayloadNF(env, m) c == Corr(env, m)
      hs == IF hn.k = "none" THEN {NoHeaders, O(Extra :> V("\"dropped\""))} ELSE HProbes(hn)
      h1 == IF hn.k = "none" THEN NoHeaders ELSE FullV(hn, 1)
  IN { Probe(c, hn, pn, h, FullV(pn, 1)) : h \in hs } \cup { Probe(c, hn, pn, h1, p) : p \in Probes(pn) }
\* what the harness has to know of the message
Kinds(env, m) ==
  LET hn == HeadersNF(env, m) IN
  [payload |-> PayloadNF(env, m).k,
   json |-> IF hn.k = "none" THEN {} ELSE { p \in DOMAIN hn.props : hn.props[p].k = "object" }]
=============================================================================
