------------------------------ MODULE Command ------------------------------
(***************************************************************************)
(* The command line tool: what it accepts, and what it does not write       *)
(* (property C20). A command is a value for each of its fields; it is        *)
(* accepted if, and only if, each of them can be accepted.                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Deviations,   \* how many fields can differ from a simple command
          Emit

Versions == {"2.0.0", "2.1.0", "2.2.0", "2.3.0", "2.4.0", "2.5.0", "2.6.0", "3.0.0"}
BadVersions == {"", "2", "2.6", "2.6.1", "2.6.00", "02.6.0", "2.7.0", "2.10.0", "v2.6.0", " 2.6.0", "2.6.0 ", "2.6.0-rc1", "1.2.0", "3", "3.0", "3.0.1", "3.1.0",
                "4.0.0", "0.0.0", "@absent", "@null", "@number2", "@number3", "@float", "@list", "@object", "@true"}
Parts == {"types", "application", "user", "user,application,types", "types,user", "application,types", "types,application,user"}
BadParts == {"all", "Types", "app", "types,", ",types", "types user", " types", "types,application,users", "types;user", "none", "user,,types"}
Files == {"in.yaml", "in.yml", "in.json", "sub/in.yaml", "in.v1.yaml", "in.txt.yml"}
BadFiles == {"in.txt", "in", "in.YAML", "in.JSON", "in.yaml.bak", "in.jsonc", "in.toml", "yaml", "in."}
Fields == [
  version |-> [good |-> Versions, bad |-> BadVersions],
  file |-> [good |-> Files, bad |-> BadFiles],
  content |-> [good |-> {"yaml", "json"}, bad |-> {"cut", "empty", "spaces", "list", "text", "number", "null", "@missing", "@directory"}],
  generate |-> [good |-> Parts \cup {"@default"}, bad |-> BadParts],
  naming |-> [good |-> {"@default", "none", "camel"}, bad |-> {"", "Camel", "snake", "pascal", "kebab", "none,camel"}],
  keys |-> [good |-> {"@default", "none", "snake", "kebab", "camel"}, bad |-> {"", "Snake", "upper", "pascal", "snake_case", "none "}],
  target |-> [good |-> {"out.gen.go", "new.go", "@default", "./out.go"}, bad |-> {"missing/out.gen.go", "@directory"}],
  dependency |-> [good |-> {"@none", "yaml", "json", "two"}, bad |-> {"text", "@missing", "cut"}],
  extra |-> [good |-> {"@none", "force", "ignore", "both"}, bad |-> {"@unknown"}],
  layout |-> [good |-> {"@default", "disabled"}, bad |-> {}],
  package |-> [good |-> {"pkg", "other_name", "@default"}, bad |-> {"not-a-name", "type", "a b"}]
]
Names == DOMAIN Fields
Order(f) == CASE f = "version" -> 1 [] f = "file" -> 2 [] f = "content" -> 3 [] f = "generate" -> 4 [] f = "naming" -> 5 [] f = "keys" -> 6
              [] f = "target" -> 7 [] f = "dependency" -> 8 [] f = "extra" -> 9 [] f = "package" -> 10 [] f = "layout" -> 11
Major(c) == IF c.version = "3.0.0" THEN 3 ELSE 2     \* of an accepted one
Simple(v) == [f \in Names |-> CASE f = "version" -> v [] f = "file" -> "in.yaml" [] f = "content" -> "yaml" [] f = "generate" -> "@default" [] f = "naming" -> "@default"
                                [] f = "keys" -> "@default" [] f = "target" -> "out.gen.go" [] f = "dependency" -> "@none" [] f = "extra" -> "@none" [] f = "package" -> "pkg" [] f = "layout" -> "@default"]
Values(f) == Fields[f].good \cup Fields[f].bad
\* fields that do not go together: YAML is not JSON (but JSON is YAML); a dependency of another major version has another content
Together(c) == ~(c.file = "in.json" /\ c.content = "yaml")
Accepted(c) == (\A f \in Names : c[f] \in Fields[f].good) /\ Together(c)

VARIABLES command, changed, major     \* version of the document, whatever it claims
vars == <<command, changed, major>>
Init == \E v \in {"2.6.0", "3.0.0"} : command = Simple(v) /\ changed = {} /\ major = Major(Simple(v))
\* fields are changed one after the other
Change(f) == /\ Cardinality(changed) < Deviations
             /\ \A g \in changed : Order(g) < Order(f)
             /\ \E v \in Values(f) \ {command[f]} : /\ f = "version" /\ v \in Versions => (v = "3.0.0") = (major = 3)
                                                  /\ command' = [command EXCEPT ![f] = v]
             /\ changed' = changed \cup {f}
             /\ UNCHANGED major
Next == \E f \in Names : Change(f)
Spec == Init /\ [][Next]_vars
\* one wrong field is enough, whatever the others are
Sound == \A f \in Names : command[f] \in Fields[f].bad => ~Accepted(command)
\* what is generated depends on nothing else, and has these parts
PartsOf(c) == CASE c.generate \in {"@default", "user,application,types", "types,application,user"} -> {"types", "application", "user"}
                [] c.generate = "types,user" -> {"types", "user"} [] c.generate = "application,types" -> {"types", "application"}
                [] OTHER -> {c.generate}
Default(x, d) == IF x = "@default" THEN d ELSE x
Output(c) == [major |-> Major(c), parts |-> PartsOf(c), naming |-> Default(c.naming, "none"), keys |-> Default(c.keys, "none"), extra |-> c.extra,
              package |-> Default(c.package, "asyncapi"), formatted |-> c.layout = "@default"]
\* what is not formatted is not read again: the name of the package is not seen to be none
Judged(c) == ~(c.layout = "disabled" /\ c.package \in Fields["package"].bad)
Emission == Emit /\ Judged(command) =>
  PrintT("@@" \o ToJson([c |-> command, n |-> Cardinality(changed), major |-> major, accept |-> Accepted(command),
                        output |-> IF Accepted(command) THEN <<Output(command)>> ELSE <<>>]))
=============================================================================
