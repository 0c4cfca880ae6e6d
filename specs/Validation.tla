---------------------------- MODULE Validation ----------------------------
(***************************************************************************)
(* Which values satisfy the constraints of a property, as JSON schema       *)
(* defines it; the validator run on the generated structures has to accept  *)
(* exactly these ones.                                                      *)
(*                                                                          *)
(* A number is <<b, n>>, that is Base(b) + n/2 with the bases -1e6, 0, 1e6, *)
(* 1e15 (b is -1, 0, 1, 2): the offsets are small, hence the order is the   *)
(* lexicographic one. The bound None is the absence of a bound.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Wide      \* more bounds

None == <<9, 9>>
Num(b, n) == <<b, n>>
Less(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] < y[2])
LessEq(x, y) == x = y \/ Less(x, y)
IsInt(x) == x[2] % 2 = 0

\* --- Constraints ------------------------------------------------------------
\* bounds: lo and hi, inclusive or not
NoStr == [minl |-> -1, maxl |-> -1, enum |-> <<>>, const |-> "<none>"]
Number(kind, lo, xlo, hi, xhi) == [kind |-> kind, lo |-> lo, xlo |-> xlo, hi |-> hi, xhi |-> xhi]
Str(minl, maxl, enum, const) == [kind |-> "string", minl |-> minl, maxl |-> maxl, enum |-> enum, const |-> const]
Array(kind, unique) == [kind |-> kind, unique |-> unique]
Plain(kind) == [kind |-> kind]
\* enumerations and constants that are not only strings (JSON texts): they do not constrain, but accept their own values
Other(type, enum, const) == [kind |-> "other", type |-> type, values |-> enum, value |-> const]
Numbers == {"integer", "int32", "number", "float"}
Arrays == {"strings", "integers", "numbers", "booleans"}

SeqSet(s) == { s[i] : i \in 1..Len(s) }
Satisfies(c, v) ==
  CASE c.kind \in Numbers ->
         /\ c.lo # None => LessEq(c.lo, v)
         /\ c.xlo # None => Less(c.xlo, v)
         /\ c.hi # None => LessEq(v, c.hi)
         /\ c.xhi # None => Less(v, c.xhi)
    [] c.kind = "string" ->
         /\ c.minl >= 0 => Len(v) >= c.minl
         /\ c.maxl >= 0 => Len(v) <= c.maxl
         /\ c.enum # <<>> => v \in SeqSet(c.enum)
         /\ c.const # "<none>" => v = c.const
    [] c.kind \in Arrays -> c.unique => \A i, j \in 1..Len(v) : v[i] = v[j] => i = j
    [] c.kind = "other" -> v \in SeqSet(c.values) \cup {c.value}
    [] OTHER -> TRUE

\* --- Cases -------------------------------------------------------------------
\* integers may have bounds that are not integers
Bounds(kind) == {Num(0, 0), Num(0, -6), Num(0, 7), Num(1, 0)} \cup (IF kind \in {"integer", "number"} THEN {Num(2, 0)} ELSE {}) \cup
                (IF Wide THEN {Num(-1, 0), Num(1, 1), Num(0, 1), Num(0, -1)} ELSE {})
Opt(s) == s \cup {None}
NumberCases ==
  { c \in UNION { { Number(k, lo, xlo, hi, xhi) : lo, xlo, hi, xhi \in Opt(Bounds(k)) } : k \in Numbers } :
      /\ Cardinality({ f \in {"lo", "xlo", "hi", "xhi"} : c[f] # None }) \in 1..(IF Wide THEN 3 ELSE 2)
      /\ \A l \in {c.lo, c.xlo} \ {None}, h \in {c.hi, c.xhi} \ {None} : Less(l, h) /\ Less(Num(l[1], l[2] + 2), h)
      /\ (c.lo # None /\ c.xlo # None) => c.lo # c.xlo
      /\ (c.hi # None /\ c.xhi # None) => c.hi # c.xhi }

Enums == { <<"a">>, <<"on", "off", "">>, <<"two words", "a  b", " c ">>, <<"a,b", "c|d", ",", "|">>, <<"say \"hi\"", "back\\slash">>,
           <<"~", "<&>", "a=b", "=">>, <<"it's", "o", "'quoted'">>, <<"tick`s", "tab\t", "line\nend">>, <<"10", "1e3", "true", "null">> }
Consts == { "fixed", "two words", "a,b|c", "say \"hi\"", "back\\slash", "it's", "tick`s", "a=b", "~", " pad ", "100" }
StrCases ==
  { Str(l, h, <<>>, "<none>") : l \in {-1, 1, 3}, h \in {-1, 0, 3, 5} } \cup
  { Str(-1, -1, e, "<none>") : e \in Enums } \cup { Str(-1, -1, <<>>, k) : k \in Consts } \cup
  { Str(2, -1, <<"on", "off", "x">>, "<none>"), Str(-1, 2, <<"on", "off", "x">>, "<none>"), Str(-1, -1, <<"on", "off">>, "off"), Str(100, 100000, <<>>, "<none>"),
    Str(-1, 2000000, <<>>, "<none>") }
ArrayCases == { Array(k, u) : k \in Arrays, u \in BOOLEAN }
PlainCases == { Plain(k) : k \in {"boolean", "object", "date-time", "date"} }
OtherCases ==
  { Other("integer", <<"1", "2", "0">>, "none"), Other("integer", <<"5">>, "5"), Other("int32", <<>>, "-7"), Other("number", <<"0.5", "0", "2">>, "none"),
    Other("float", <<>>, "1.5"), Other("boolean", <<"true">>, "none"), Other("boolean", <<"false">>, "false"), Other("boolean", <<>>, "false"),
    Other("string", <<"\"a\"", "1">>, "none"), Other("string", <<"null", "\"b\"">>, "none"), Other("string", <<"true", "\"c\"", "[\"d\"]">>, "none"),
    Other("object", <<"{\"v\": \"w\"}", "{}">>, "none"), Other("object", <<>>, "{\"v\": 1}") }
\* only the values of the type can be written
Typed(c) == { v \in (SeqSet(c.values) \cup {c.value}) \ {"none"} : c.type # "string" \/ v \in {"\"a\"", "\"b\"", "\"c\""} }
Sensible(c) == c.kind = "string" => (c.minl < 0 \/ c.maxl < 0 \/ c.minl <= c.maxl)
Cases == { c \in NumberCases \cup StrCases \cup ArrayCases \cup PlainCases \cup OtherCases : Sensible(c) }

\* --- Values around the limits ---------------------------------------------------
\* strings of a length; "~" is not ASCII on the wire
Text(n) == CASE n = 0 -> "" [] n = 1 -> "~" [] n = 2 -> "a~" [] n = 3 -> "~~~" [] n = 4 -> "abc~" [] n = 5 -> "~b de" [] n = 6 -> "abcdef" [] OTHER -> "abcdefgh"
Around(x) == IF x = None THEN {} ELSE { Num(x[1], x[2] + d) : d \in {-2, -1, 0, 1, 2} }
Values(c) ==
  CASE c.kind \in Numbers ->
         LET all == UNION { Around(x) : x \in {c.lo, c.xlo, c.hi, c.xhi} } \cup
                    { Num(b, 0) : b \in IF c.kind \in {"integer", "number"} THEN -1..2 ELSE -1..1 }
         IN { v \in all : IsInt(v) \/ c.kind \in {"number", "float"} }
    [] c.kind = "string" ->
         { Text(n) : n \in 0..7 } \cup SeqSet(c.enum) \cup { x \o "x" : x \in SeqSet(c.enum) } \cup
         (IF c.const = "<none>" THEN {} ELSE {c.const, c.const \o "x", "x" \o c.const, ""}) \cup {"on off", "'on'", "a b", "0x2C", "it", "two"}
    [] c.kind = "strings" -> { <<>>, <<"a">>, <<"a", "b">>, <<"a", "b", "a">>, <<"", "">>, <<"", "~", "A", "a">>, <<"~", "~">> }
    [] c.kind \in {"integers", "numbers"} -> { <<>>, <<Num(0, 0)>>, <<Num(0, 0), Num(0, 2), Num(0, -2)>>, <<Num(0, 0), Num(0, 2), Num(0, 0)>>, <<Num(2, 0), Num(2, 2)>>,
                                               <<Num(2, 2), Num(2, 2)>> }
    [] c.kind = "booleans" -> { <<>>, <<TRUE, FALSE>>, <<TRUE, TRUE>>, <<FALSE>> }
    [] c.kind = "boolean" -> {TRUE, FALSE}
    [] c.kind = "other" -> Typed(c)
    [] c.kind = "object" -> {"{}"}
    [] c.kind = "date-time" -> {"2024-02-29T12:30:00Z", "0001-01-01T00:00:00Z"}
    [] c.kind = "date" -> {"2024-02-29", "0001-01-01"}
Long == 150     \* the length of a string that is too long to be written here
LongOk(c) == c.kind = "string" /\ c.enum = <<>> /\ c.const = "<none>" /\ (c.minl < 0 \/ c.minl <= Long) /\ (c.maxl < 0 \/ c.maxl >= Long)

\* the required properties that are not set are seen when the Go type can tell it
AbsentSeen(c, forced) == forced \/ c.kind \in Arrays
Absent(c, req) == ~req

VARIABLE case
Init == case \in Cases
Next == FALSE /\ UNCHANGED case
Spec == Init /\ [][Next]_case
Probes == [v \in Values(case) |-> Satisfies(case, v)]
\* every case is satisfied by some value
Satisfiable == (\E v \in DOMAIN Probes : Probes[v]) \/ LongOk(case)
Emission ==
  PrintT("@@" \o ToJson([c |-> case, good |-> {v \in Values(case) : Satisfies(case, v)}, bad |-> {v \in Values(case) : ~Satisfies(case, v)},
                         long |-> IF case.kind = "string" THEN LongOk(case) ELSE FALSE, islong |-> case.kind = "string",
                         absent |-> [req |-> Absent(case, TRUE), opt |-> Absent(case, FALSE)],
                         seen |-> [forced |-> AbsentSeen(case, TRUE), free |-> AbsentSeen(case, FALSE)]]))
=============================================================================
