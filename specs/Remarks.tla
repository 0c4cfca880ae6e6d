------------------------------- MODULE Remarks -------------------------------
(***************************************************************************)
(* What a document says without effect on the code (property C25): texts,   *)
(* examples, default values, tags, bindings, servers, security, constraints *)
(* that are not generated, unknown extensions... may be added to any object  *)
(* of a document, which keeps the same meaning.                              *)
(*                                                                           *)
(* A document is what each of its objects says: a set of fields with their   *)
(* values. Significant are the fields that have a meaning.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Version,      \* 2 or 3
          MaxSaid,      \* remarks of a document
          Emit

\* objects of the document, and what they are
Common == {"root", "info", "channel", "paramchannel", "operation", "sender", "message", "refmessage", "headers", "payload", "string", "number", "date", "enum", "object", "inner", "array", "items",
           "map", "any", "reference", "composed", "component", "parameter", "correlation", "header"}
Objects == Common \cup (IF Version = 3 THEN {"server", "asker", "reply", "answer", "trait", "address"} ELSE {})
Kind(o) == CASE o \in {"root", "info", "server", "parameter", "reply", "address", "correlation", "reference"} -> o
             [] o \in {"channel", "paramchannel"} -> "channel"
             [] o \in {"operation", "sender", "asker"} -> "operation"
             [] o \in {"message", "refmessage", "answer"} -> "message"
             [] o = "trait" -> "trait"
             [] o \in {"string", "header"} -> "string"
             [] o \in {"number"} -> "number"
             [] o \in {"array"} -> "array"
             [] o \in {"date", "any", "enum", "composed"} -> "schema"
             [] o \in {"items"} -> "string"
             [] OTHER -> "object"

Texts == {"plain", "lines", "end", "blank", "crlf", "code", "close", "template", "quotes", "unicode", "tabs", "number", "directive"}
Text(k) == CASE k = "root" -> {}
             [] k = "info" -> {"title", "description", "version"}
             [] k \in {"server", "channel", "operation", "message", "trait"} -> {"title", "summary", "description"}
             [] k \in {"parameter", "correlation", "address"} -> {"description"}
             [] k \in {"reference", "reply"} -> {}
             [] OTHER -> {"title", "description"}
Schemas == {"schema", "string", "number", "array", "object"}
Data(k) == {"x-text", "x-object", "x-list"} \cup
           CASE k = "root" -> {"id", "servers", "contenttype"} \cup (IF Version = 2 THEN {"tags", "docs"} ELSE {})
             [] k = "info" -> {"terms", "contact", "license"} \cup (IF Version = 3 THEN {"tags", "docs"} ELSE {})
             [] k = "server" -> {"tags", "docs", "bindings", "variables", "security"}
             [] k = "channel" -> {"bindings", "usedservers"} \cup (IF Version = 3 THEN {"tags", "docs"} ELSE {})
             [] k = "operation" -> {"tags", "docs", "bindings", "security"} \cup (IF Version = 3 THEN {"traits"} ELSE {})
             [] k \in {"message", "trait"} -> {"tags", "docs", "bindings", "examples", "textexample", "contenttype"} \cup (IF k = "message" /\ Version = 2 THEN {"named", "schemaformat"} ELSE {})
             [] k = "parameter" -> (IF Version = 3 THEN {"choices", "default", "example"} ELSE {})
             [] k \in Schemas -> {"examples", "default", "readonly", "writeonly", "deprecated", "docs", "comment", "not", "if"} \cup
                                 CASE k = "string" -> {"pattern", "password", "media"}
                                   [] k = "number" -> {"multiple", "multiples"}
                                   [] k = "array" -> {"counts", "contains", "otheritems"}
                                   [] k = "object" -> {"sizes", "names", "patterns", "depends", "discriminator"}
                                   [] OTHER -> {}
             [] OTHER -> {}
Fields(k) == Text(k) \cup Data(k)
Values(f) == IF f \in {"title", "summary", "description", "version"} THEN Texts ELSE {"one"}

VARIABLES said          \* set of <<object, field, value>>
vars == <<said>>
\* what there is from the start
Start == { <<o, "definition", "own">> : o \in Objects }
Significant(x) == x[2] = "definition"
Meaning(s) == { x \in s : Significant(x) }
\* the version of the document is a constant of the code, and has no other effect
VersionOf(s) == IF \E x \in s : x[2] = "version" THEN (CHOOSE x \in s : x[2] = "version")[3] ELSE "own"
Free(o, f) == ~\E x \in said : x[1] = o /\ x[2] = f
Say(o, f, v) == /\ Cardinality(said \ Start) < MaxSaid
                /\ Free(o, f)
                /\ said' = said \cup {<<o, f, v>>}
\* the same thing everywhere
Everywhere(v) == /\ said = Start
                 /\ said' = said \cup UNION { { <<o, f, v>> : f \in Text(Kind(o)) } : o \in Objects }
Everything == /\ said = Start
              /\ said' = said \cup UNION { { <<o, f, "one">> : f \in Data(Kind(o)) } : o \in Objects }
Init == said = Start
Next == \/ \E o \in Objects : \E f \in Fields(Kind(o)) : \E v \in Values(f) : Say(o, f, v)
        \/ \E v \in Texts : Everywhere(v)
        \/ Everything
Spec == Init /\ [][Next]_vars
Same == Meaning(said) = Meaning(Start)
Invs == Same
Emission == Emit => PrintT("@@" \o ToJson([said |-> { <<x[1], Kind(x[1]), x[2], x[3]>> : x \in said \ Start }, version |-> VersionOf(said), n |-> Cardinality(said \ Start)]))
=============================================================================
