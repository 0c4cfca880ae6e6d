------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Messages on the wire: property C12. Strings are raw bytes, numbers are   *)
(* fixed-size and big-endian when they are the whole payload, everything    *)
(* else is JSON; there is a header for each set property of the headers.    *)
(* What is on the wire is either a text or a sequence of bytes.             *)
(***************************************************************************)
EXTENDS Schema
CONSTANTS Wide, Emit

\* --- bytes and numbers -------------------------------------------------------------
Rep(n, b) == [i \in 1..n |-> b]
\* decimal digits (least significant first) of a big-endian sequence of bytes
RECURSIVE MulAdd(_, _), Digits(_, _)
MulAdd(ds, c) ==    \* ds * 256 + c
  IF ds = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c % 10>> \o MulAdd(<<>>, c \div 10))
  ELSE LET x == Head(ds) * 256 + c IN <<x % 10>> \o MulAdd(Tail(ds), x \div 10)
Digits(bs, acc) == IF bs = <<>> THEN acc ELSE Digits(Tail(bs), MulAdd(acc, Head(bs)))
Decimal(ds) == IF ds = <<>> THEN "0" ELSE LET n == Len(ds) IN
  LET RECURSIVE S(_) S(i) == IF i = 0 THEN "" ELSE ToString(ds[i]) \o S(i - 1) IN S(n)
RECURSIVE Plus1(_)
Plus1(bs) == IF bs = <<>> THEN <<>>
             ELSE LET n == Len(bs) IN IF bs[n] = 255 THEN Plus1(SubSeq(bs, 1, n - 1)) \o <<0>> ELSE [bs EXCEPT ![n] = @ + 1]
\* two's complement
IntText(bs) == IF bs[1] < 128 THEN Decimal(Digits(bs, <<>>))
               ELSE "-" \o Decimal(Digits(Plus1([i \in DOMAIN bs |-> 255 - bs[i]]), <<>>))
Size(k) == IF k \in {"integer", "number"} THEN 8 ELSE 4
FloatTexts(k) ==
  IF k = "number" THEN { <<Rep(8, 0), "0">>, <<<<63, 240>> \o Rep(6, 0), "1">>, <<<<192, 4>> \o Rep(6, 0), "-2.5">>, <<Rep(7, 0) \o <<1>>, "5e-324">>,
                         <<<<127, 239>> \o Rep(6, 255), "1.7976931348623157e+308">>, <<<<128>> \o Rep(7, 0), "-0">>, <<<<127, 240>> \o Rep(6, 0), "+Inf">>,
                         <<<<255, 240>> \o Rep(6, 0), "-Inf">>, <<<<127, 248>> \o Rep(5, 0) \o <<1>>, "NaN">>, <<<<64, 9, 33, 251, 84, 68, 45, 24>>, "3.141592653589793">> }
  ELSE { <<Rep(4, 0), "0">>, <<<<63, 128, 0, 0>>, "1">>, <<<<192, 32, 0, 0>>, "-2.5">>, <<<<0, 0, 0, 1>>, "1e-45">>, <<<<127, 127, 255, 255>>, "3.4028235e+38">>,
         <<<<128, 0, 0, 0>>, "-0">>, <<<<127, 128, 0, 0>>, "+Inf">>, <<<<255, 128, 0, 0>>, "-Inf">>, <<<<127, 192, 0, 1>>, "NaN">>, <<<<64, 73, 15, 219>>, "3.1415927">> }
Patterns(n) == { [Rep(n, b) EXCEPT ![i] = x] : b \in {0}, i \in 1..n, x \in {1, 127, 128, 255} }
               \cup { [Rep(n, 255) EXCEPT ![i] = x] : i \in 3..n, x \in {0, 127, 254} } \cup {Rep(n, 0), [i \in 1..n |-> i], <<127>> \o Rep(n - 1, 255), <<128>> \o Rep(n - 1, 0)}
IsNaN(k, bs) == bs[1] \in {127, 255} /\ bs[2] >= (IF k = "number" THEN 240 ELSE 128)

\* --- schemas -------------------------------------------------------------------------
Plain == [force |-> FALSE, ignore |-> FALSE]
Options == { Plain, [Plain EXCEPT !.force = TRUE], [Plain EXCEPT !.ignore = TRUE] }
Small == Obj("a" :> Leaf("string") @@ "b" :> Arr(Leaf("integer")) @@ "c" :> Ref("Tstrings"), {})
Types == "string" :> Leaf("string") @@ "date-time" :> Leaf("date-time") @@ "date" :> Leaf("date") @@ "integer" :> Leaf("integer") @@ "int32" :> Leaf("int32")
  @@ "number" :> Leaf("number") @@ "float" :> Leaf("float") @@ "boolean" :> Leaf("boolean") @@ "any" :> Leaf("any")
  @@ "strings" :> Arr(Leaf("string")) @@ "ints" :> Arr(Leaf("integer")) @@ "objects" :> Arr(Small) @@ "object" :> Small @@ "dates" :> Arr(Leaf("date"))
  @@ "floats" :> Arr(Leaf("float")) @@ "arrays" :> Arr(Arr(Leaf("boolean")))
Env == [n \in { "T" \o t : t \in DOMAIN Types } |-> Types[CHOOSE t \in DOMAIN Types : "T" \o t = n]]
       @@ [n \in { "R" \o t : t \in DOMAIN Types } |-> Ref("T" \o (CHOOSE t \in DOMAIN Types : "R" \o t = n))]
Form(t, f) == CASE f = "inline" -> Types[t] [] f = "ref" -> Ref("T" \o t) [] f = "chain" -> Ref("R" \o t)
RECURSIVE Ignored(_, _)
Ignored(o, nf) == IF o.ignore /\ nf.k \in {"date", "date-time"} THEN [k |-> "string"]
                  ELSE IF nf.k = "array" THEN [nf EXCEPT !.items = Ignored(o, @)] ELSE nf
Meaning(o, s) == Ignored(o, NF(Env, s))

\* --- probes of an item, what becomes of it -----------------------------------------
Item(w, ok, out, val) == [w |-> w, ok |-> ok, out |-> out, val |-> val]
NoVal == ""
T(s) == [t |-> "text", s |-> s]
B(b) == [t |-> "bytes", b |-> b]
Kept(w) == Item(w, TRUE, w, NoVal)
Bad(w) == Item(w, FALSE, w, NoVal)
Ts(f(_), set) == { f(T(x)) : x \in set }
Bs(f(_), set) == { f(B(x)) : x \in set }
Dates == {"2024-02-29", "0001-01-01", "1999-12-31", "9999-12-31"}
Times == {"2024-02-29T12:30:00Z", "0001-01-01T00:00:00Z", "1999-12-31T23:59:59.123456789+02:00", "9999-12-31T23:59:59Z", "2024-01-01T00:00:00.5-11:30"}
NoDates == {"2024-02-30", "2024-13-01", "", "5", "2024-1-1", "2024/01/01", "2024-02-29T12:30:00Z", "today", "\"2024-02-29\""}
NoTimes == {"2024-02-30T12:30:00Z", "2024-02-29", "", "5", "2024-02-29T12:30:00", "2024-02-29 12:30:00Z", "2024-02-29T25:30:00Z", "\"2024-02-29T12:30:00Z\"", "now"}
Texts == {"text", "", "a \"quoted\" \\ ~ <tag> & line", "{}", "null", " spaces ", "2024-02-29", "42", "%s%d"}
Octets == {<<>>, <<0>>, <<255, 254>>, <<195, 40>>, <<13, 10>>, <<10>>, <<239, 187, 191, 65>>, [i \in 1..300 |-> (i * 7) % 256]}
Garbage == {"", " ", "tru", "{", "[1,", "{} {}", "[]x", "nul", "'a'", "\"", "01", "+1", "@"}
GarbageBytes == {<<255>>, <<0>>, <<34, 97>>}
\* of JSON
JsonItems(nf) == { LET e == Echo(nf, v) IN Item(T(Text(v)), e.ok, T(Text(e.v)), NoVal) : v \in { FullV(nf, n) : n \in 1..NGood } \cup Muts(nf, FullV(nf, 1)) }
                 \cup Ts(Bad, Garbage) \cup Bs(Bad, GarbageBytes)
TextItems(k) ==
  CASE k = "date" -> Ts(Kept, Dates) \cup Ts(Bad, NoDates) \cup Bs(Bad, Octets)
    [] k = "date-time" -> Ts(Kept, Times) \cup Ts(Bad, NoTimes) \cup Bs(Bad, Octets)
    [] k = "string" -> Ts(Kept, Texts) \cup Bs(Kept, Octets \cup (IF Wide THEN { <<b>> : b \in 0..255 } ELSE { <<b>> : b \in {1, 31, 32, 127, 128, 255} }))
\* numbers that are the whole payload
Sizes(n) == Bs(Bad, { Rep(m, x) : m \in (0..17) \ {n}, x \in {0, 49, 255} })
PayloadItems(nf) ==
  CASE nf.k \in {"string", "date", "date-time"} -> TextItems(nf.k)
    [] nf.k \in {"integer", "int32"} -> { Item(B(b), TRUE, B(b), IntText(b)) : b \in Patterns(Size(nf.k)) } \cup Sizes(Size(nf.k)) \cup Ts(Bad, {"42", "0", "12345"})
    [] nf.k \in {"number", "float"} -> { Item(B(p[1]), TRUE, B(p[1]), p[2]) : p \in FloatTexts(nf.k) }
         \cup Bs(Kept, { b \in Patterns(Size(nf.k)) : ~IsNaN(nf.k, b) } \ { p[1] : p \in FloatTexts(nf.k) }) \cup Sizes(Size(nf.k)) \cup Ts(Bad, {"2.5", "0", "1e9"})
    [] OTHER -> JsonItems(nf)
HeaderItems(nf) == IF nf.k \in {"string", "date", "date-time"} THEN TextItems(nf.k) ELSE JsonItems(nf)
FirstItem(items) == CHOOSE i \in items : i.ok /\ i.w \notin {T(""), B(<<>>)}
Odd == { T(g) : g \in Garbage } \cup { B(g) : g \in GarbageBytes \cup Octets }

\* --- messages ----------------------------------------------------------------------
Key == "X-Some header_~"
\* one header or none, or all of them (the ones of a set being required)
PayloadDocs == { [payload |-> Form(t, f), headers |-> None, opts |-> o] : t \in DOMAIN Types, f \in {"inline", "ref", "chain"}, o \in Options }
HeaderDocs == { [payload |-> Leaf("string"), headers |-> Obj(Key :> Form(t, f), IF r THEN {Key} ELSE {}), opts |-> o] :
                t \in DOMAIN Types, f \in {"inline", "ref", "chain"}, r \in BOOLEAN, o \in Options }
MixedDocs == { [payload |-> Form(p, "ref"), headers |-> Obj([t \in DOMAIN Types |-> Form(t, f)], q), opts |-> o] :
               p \in {"integer", "object", "boolean"}, f \in {"inline", "ref"}, q \in { {}, DOMAIN Types, {"string", "integer", "object", "date"} }, o \in Options }
Docs == PayloadDocs \cup HeaderDocs \cup MixedDocs

ZeroText(nf) == CASE nf.k = "string" -> "" [] nf.k = "date-time" -> "0001-01-01T00:00:00Z" [] OTHER -> Text(ZeroOf(nf))
\* whether the zero value of the Go type is a value that can be sent
Fill(nf) == nf.k \in {"string", "date-time", "integer", "int32", "number", "float", "boolean"}
\* headers are given by a function of some of the names to items; names that are not there are not received
Message(o, hn, h, p) ==
  LET names == IF hn.k = "none" THEN {} ELSE DOMAIN hn.props
      missing == { x \in names \cap (IF hn.k = "none" THEN {} ELSE hn.req) : x \notin DOMAIN h }
      ok == p.ok /\ \A x \in DOMAIN h \cap names : h[x].ok
  IN [h |-> [x \in DOMAIN h |-> h[x].w], p |-> p.w, ok |-> ok, val |-> p.val,
      \* pointers tell that a required header is missing
      fails |-> o.force /\ \E x \in missing : hn.props[x].k # "array",
      eh |-> [x \in (DOMAIN h \cap names) \cup missing |-> IF x \in DOMAIN h THEN h[x].out ELSE T(ZeroText(hn.props[x]))],
      ep |-> p.out]
Probes12(d) ==
  LET pn == Meaning(d.opts, d.payload)
      hn == IF d.headers.k = "none" THEN None
            ELSE [k |-> "object", props |-> [x \in DOMAIN d.headers.props |-> Meaning(d.opts, d.headers.props[x])], req |-> d.headers.req]
      names == IF hn.k = "none" THEN {} ELSE DOMAIN hn.props
      h0 == [x \in names |-> FirstItem(HeaderItems(hn.props[x]))]
      p0 == FirstItem(PayloadItems(pn))
      absent == { x \in names : x \notin hn.req \/ Fill(hn.props[x]) }
  IN { Message(d.opts, hn, h0, p) : p \in IF Cardinality(names) > 1 THEN {p0} ELSE PayloadItems(pn) }
     \cup (IF names = {} THEN {} ELSE
           { Message(d.opts, hn, [h0 EXCEPT ![x] = i], p0) : <<x, i>> \in { y \in UNION { {x} \X HeaderItems(hn.props[x]) : x \in names } :
                                                                               Cardinality(names) = 1 \/ Wide \/ y[2].w \notin Odd } })
     \cup { Message(d.opts, hn, [y \in names \ {x} |-> h0[y]], p0) : x \in absent }
     \cup { Message(d.opts, hn, [y \in names \ absent |-> h0[y]], p0), Message(d.opts, hn, Left(h0, "other" :> Kept(T("dropped"))), p0) }

VARIABLE doc
Init == doc \in { [group |-> o] : o \in Options }
Next == \E d \in Docs : doc = [group |-> d.opts] /\ doc' = d
Spec == Init /\ [][Next]_doc
Chosen == "payload" \in DOMAIN doc
\* what is sent again is received as what has been sent
Stable == Chosen => \A p \in Probes12(doc) : p.ok /\ ~p.fails /\ p.ep # p.p => \E q \in PayloadItems(Meaning(doc.opts, doc.payload)) : q.w = p.ep => q.ok /\ q.out = p.ep
Emission == Chosen /\ Emit => PrintT("@@" \o ToJson([d |-> doc, env |-> Env, payload |-> Meaning(doc.opts, doc.payload).k,
   json |-> IF doc.headers.k = "none" THEN {} ELSE { x \in DOMAIN doc.headers.props : Meaning(doc.opts, doc.headers.props[x]).k \notin {"string", "date", "date-time"} },
   probes |-> Probes12(doc)]))
=============================================================================
