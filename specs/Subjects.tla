------------------------------ MODULE Subjects ------------------------------
(***************************************************************************)
(* Subjects of NATS: * is one token, > is one or more last tokens.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Words, MaxLen
Tokens(max, alphabet) == UNION { [1..n -> alphabet] : n \in 1..max }
\* > is only the last token
ValidPattern(p) == \A i \in 1..(Len(p) - 1) : p[i] # ">"
Subjects == Tokens(MaxLen, Words)
Patterns == { p \in Tokens(MaxLen, Words \cup {"*", ">"}) : ValidPattern(p) }
RECURSIVE Match(_, _)
Match(p, s) ==
  IF p = <<>> \/ s = <<>> THEN p = <<>> /\ s = <<>>
  ELSE CASE p[1] = ">" -> TRUE
         [] p[1] = "*" -> Match(Tail(p), Tail(s))
         [] OTHER -> p[1] = s[1] /\ Match(Tail(p), Tail(s))
\* the same thing, without recursion
Direct(p, s) ==
  LET n == Len(p) open == p[n] = ">" fixed == IF open THEN n - 1 ELSE n IN
  /\ IF open THEN Len(s) >= n ELSE Len(s) = n
  /\ \A i \in 1..fixed : p[i] = "*" \/ p[i] = s[i]
RECURSIVE Join(_)
Join(t) == IF Len(t) = 1 THEN t[1] ELSE t[1] \o "." \o Join(Tail(t))

VARIABLE pat
Init == pat \in Patterns
Next == UNCHANGED pat
Spec == Init /\ [][Next]_pat
Same == \A s \in Subjects : Match(pat, s) = Direct(pat, s)
\* a pattern without wildcard matches itself only
Literal == (\A i \in 1..Len(pat) : pat[i] \in Words) => { s \in Subjects : Match(pat, s) } = {pat}
Report == PrintT("@@" \o ToJson([pattern |-> Join(pat), yes |-> { Join(s) : s \in { s \in Subjects : Match(pat, s) } },
                                 no |-> { Join(s) : s \in { s \in Subjects : ~Match(pat, s) } }]))
=============================================================================
