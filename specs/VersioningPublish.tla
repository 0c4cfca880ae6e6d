------------------------- MODULE VersioningPublish -------------------------
(***************************************************************************)
(* What the versioning wrapper publishes: the same message, with the        *)
(* version of the context in the configured header.                        *)
(***************************************************************************)
EXTENDS Sequences, TLC, Json
CONSTANTS Emit
Keys == {"application-version", "x-version"}
Names == Keys \cup {"other"}
HeaderSets == UNION { [S -> {"v0", ""}] : S \in SUBSET Names }
VARIABLES in
Init == in \in [version : {"", "v1", "1.2.3"}, headers : HeaderSets, nil : BOOLEAN, key : Keys, def : {"", "v7"}, fails : BOOLEAN]
Valid == in.nil => DOMAIN in.headers = {}
Expect == IF in.version = "" THEN in.headers
          ELSE [h \in DOMAIN in.headers \cup {in.key} |-> IF h = in.key THEN in.version ELSE in.headers[h]]
Next == FALSE /\ UNCHANGED in
Spec == Init /\ [][Next]_in
\* only the header of the version changes
Invs == /\ \A h \in DOMAIN in.headers : h # in.key => Expect[h] = in.headers[h]
        /\ DOMAIN Expect \ DOMAIN in.headers \subseteq {in.key}
Emission == Valid /\ (IF Emit THEN PrintT("@@" \o ToJson(in @@ [expect |-> Expect])) ELSE TRUE)
=============================================================================
