----------------------------- MODULE Generation -----------------------------
(***************************************************************************)
(* What is generated is a function of the specification and the options     *)
(* (property C19).                                                           *)
(*  - Presentations: a document can be written in several ways (order of its *)
(*    keys, format, names of the files...), that all mean the same.          *)
(*  - Histories: a process can generate several times, from the same          *)
(*    specification or others, with other options, or failing. The            *)
(*    generator keeps options in variables of the process; what it generates *)
(*    has to be what it would generate alone.                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Deviations,   \* fields of a presentation that can differ from the simplest one
          Length,       \* generations of a history
          Resets,       \* whether a generation forgets the options of the previous one (in the model of the implementation)
          Emit

\* --- presentations ------------------------------------------------------------------
Fields == [
  order |-> {"given", "reversed", "sorted", "shuffled1", "shuffled2", "shuffled3"},     \* keys of the main document
  format |-> {"json", "compact", "ascii", "yaml", "flow", "aliases", "comments", "crlf"},
  name |-> {"main", "zz.other", "sub/main", "UPPER", "sp ace"},
  deporder |-> {"given", "reversed", "shuffled1"},                                      \* keys of the dependencies
  depformat |-> {"json", "compact", "ascii"},
  inputs |-> {"split", "joined", "long", "reversed"},                                   \* how the files are given, and the dependencies ordered
  cwd |-> {"here", "absolute"},
  target |-> {"out.gen.go", "another.go", "existing", "absolute"},
  run |-> {"first", "second", "third", "fourth"}                                        \* maps are iterated in a random order
]
Names == DOMAIN Fields
Simple == [order |-> "given", format |-> "json", name |-> "main", deporder |-> "given", depformat |-> "json", inputs |-> "split", cwd |-> "here",
           target |-> "out.gen.go", run |-> "first"]
Differs(p) == { f \in Names : p[f] # Simple[f] }
\* the meaning of a presentation: the one of the document, whatever it is
Meaning(p) == "document"

\* --- histories ------------------------------------------------------------------------
Documents == {"two", "three"}
Base == [keys |-> "none", naming |-> "none", dates |-> TRUE, pointers |-> FALSE, parts |-> "all"]
Options == { Base, [Base EXCEPT !.pointers = TRUE], [Base EXCEPT !.dates = FALSE], [Base EXCEPT !.keys = "snake"], [Base EXCEPT !.naming = "camel"],
             [Base EXCEPT !.keys = "kebab", !.dates = FALSE, !.pointers = TRUE, !.naming = "camel"], [Base EXCEPT !.parts = "types"],
             [Base EXCEPT !.keys = "wrong", !.dates = FALSE], [Base EXCEPT !.naming = "wrong", !.keys = "camel", !.pointers = TRUE] }
Fails(o) == o.keys = "wrong" \/ o.naming = "wrong"
\* what has to be generated
Expected(d, o) == IF Fails(o) THEN <<"error">> ELSE <<"code", d, o>>

VARIABLES presentation,
          kept,         \* the options that are variables of the process
          history       \* the generations: instance (index of the first use, or 0 for a new one), document, options, result
vars == <<presentation, kept, history>>
\* the implementation: options set one after the other, until one is refused
After(o) == IF o.keys = "wrong" THEN kept
            ELSE IF o.naming = "wrong" THEN [kept EXCEPT !.keys = o.keys]
            ELSE [keys |-> o.keys, naming |-> o.naming, dates |-> o.dates /\ (Resets \/ kept.dates), pointers |-> o.pointers \/ (~Resets /\ kept.pointers)]
Result(d, o) == IF Fails(o) THEN <<"error">> ELSE <<"code", d, [keys |-> After(o).keys, naming |-> After(o).naming, dates |-> After(o).dates,
                                                                pointers |-> After(o).pointers, parts |-> o.parts]>>
Step(from, d, o) == /\ history' = Append(history, [from |-> from, doc |-> d, opts |-> o, result |-> Result(d, o)])
                    /\ kept' = After(o)
                    /\ UNCHANGED presentation
New == \E d \in Documents, o \in Options : Step(0, d, o)
Again == \E i \in 1..Len(history), o \in Options : history[i].from = 0 /\ Step(i, history[i].doc, o)
InitH == presentation = Simple /\ kept = [keys |-> "none", naming |-> "none", dates |-> TRUE, pointers |-> FALSE] /\ history = <<>>
NextH == Len(history) < Length /\ (New \/ Again)
SpecH == InitH /\ [][NextH]_vars
Pure == \A i \in 1..Len(history) : history[i].result = Expected(history[i].doc, history[i].opts)
EmissionH == Emit /\ history # <<>> => PrintT("@@" \o ToJson([steps |-> history]))

InitP == InitH
Change(f) == /\ Cardinality(Differs(presentation)) < Deviations
             /\ presentation[f] = Simple[f]
             /\ \E v \in Fields[f] \ {Simple[f]} : presentation' = [presentation EXCEPT ![f] = v]
             /\ UNCHANGED <<kept, history>>
SpecP == InitP /\ [][\E f \in Names : Change(f)]_vars
\* all the ways of writing a document can be reached, and mean the same
Same == Meaning(presentation) = Meaning(Simple)
EmissionP == Emit => PrintT("@@" \o ToJson([p |-> presentation, n |-> Cardinality(Differs(presentation))]))
=============================================================================
