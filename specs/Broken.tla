------------------------------- MODULE Broken -------------------------------
(***************************************************************************)
(* Resolution of references: which documents are accepted (property C17).   *)
(*                                                                          *)
(* A part of the document (the slot) is a reference. Two components, n1 and  *)
(* n2, of the kind that is expected there, hold a definition or another     *)
(* reference, and are in the document or in the file it depends on. A       *)
(* reference has a target, or is broken in one of the Breaks: no such       *)
(* component, a component of another kind, something below a component that *)
(* does not exist, an unknown kind of component, a path out of the          *)
(* components, a component that is null, a file that is not given (even when another one has the same name in another directory), no file   *)
(* nor path, no path, not a reference at all.                               *)
(*                                                                          *)
(* The document is accepted when every reference leads to a definition, and *)
(* refused otherwise, which includes the references that turn in circles.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Slots2, Slots3, Emit
Breaks == {"absent", "kind", "under", "below", "unknown", "root", "null", "nofile", "elsewhere", "hash", "short", "text"}
Nodes == {"n1", "n2"}
VARIABLES ver, slot, start, node, file, visited, at, done
vars == <<ver, slot, start, node, file, visited, at, done>>
Init == /\ ver \in {2, 3} /\ slot \in (IF ver = 2 THEN Slots2 ELSE Slots3)
        /\ start \in {"n1"} \cup Breaks
        /\ node \in [Nodes -> {"def", "n1", "n2"} \cup Breaks]
        /\ file \in [Nodes -> {"main", "dep"}]
        \* a file that is depended on does not depend on another one
        /\ file["n1"] = "dep" => file["n2"] = "dep"
        \* what is not reached is a definition, in the document
        /\ start # "n1" => node["n1"] = "def" /\ file["n1"] = "main"
        /\ node["n1"] # "n2" => node["n2"] = "def" /\ file["n2"] = "main"
        /\ visited = {} /\ at = start /\ done = "no"
\* one step of the resolution
Follow == /\ done = "no" /\ UNCHANGED <<ver, slot, start, node, file>>
          /\ IF at \in Breaks \/ at \in visited THEN done' = "refused" /\ UNCHANGED <<at, visited>>
             ELSE IF node[at] = "def" THEN done' = "accepted" /\ UNCHANGED <<at, visited>>
             ELSE at' = node[at] /\ visited' = visited \cup {at} /\ UNCHANGED done
Next == Follow
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* accepted exactly when following the references reaches a definition
RECURSIVE Leads(_, _)
Leads(t, fuel) == t \in Nodes /\ fuel > 0 /\ (node[t] = "def" \/ Leads(node[t], fuel - 1))
Right == done # "no" => (done = "accepted" <=> Leads(start, 3))
Ends == <>(done # "no")
Emission == IF Emit /\ done # "no" THEN PrintT("@@" \o ToJson([ver |-> ver, slot |-> slot, start |-> start, node |-> node, file |-> file, o |-> done])) ELSE TRUE
=============================================================================
