------------------------------ MODULE MCHTTP -------------------------------
(* The order of values is a total one, each of these texts has a value, and  *)
(* space between words changes nothing (where it is allowed).                *)
EXTENDS HTTP
VARIABLES k, a, b, c
Kinds == {"ai", "at", "ag", "pt", "lt", "te"}
Texts(x) ==
  CASE x = "ai" -> {<<42, 47, 42>>, <<97, 47, 42>>, <<97, 47, 98>>, <<65, 47, 98, 59, 120, 61, 49>>, <<97, 47, 98, 59, 120, 61, 50>>, <<97, 47, 98, 59, 120, 61, 49, 59, 121, 61, 49>>, <<97, 47, 98, 59, 113, 61, 48, 46, 53>>, <<97, 47, 98, 59, 120, 61, 49, 59, 113, 61, 48>>, <<99, 47, 98>>, <<97, 47, 99>>}
    [] x = "at" -> {<<42>>, <<97>>, <<65>>, <<98>>, <<97, 98>>, <<97, 59, 113, 61, 48, 46, 53>>, <<42, 59, 113, 61, 48>>}
    [] x = "ag" -> {<<42>>, <<101, 110>>, <<69, 78>>, <<101, 110, 45, 117, 115>>, <<101, 110, 45, 103, 98>>, <<102, 114>>, <<102, 114, 59, 113, 61, 48, 46, 53>>, <<101, 110, 45, 117, 115, 59, 113, 61, 48>>}
    [] x = "pt" -> {<<97>>, <<97, 47, 49>>, <<97, 47, 49, 46, 48>>, <<97, 47, 49, 46, 48, 97>>, <<97, 47, 49, 46, 48, 98>>, <<97, 47, 49, 46, 97>>, <<97, 47, 48, 49>>, <<97, 47, 50>>, <<97, 47, 49, 48>>, <<98, 47, 49>>, <<97, 47, 49, 46, 48, 97, 49>>}
    [] x = "lt" -> {<<101, 110>>, <<69, 78>>, <<101, 110, 45, 117, 115>>, <<102, 114>>}
    [] x = "te" -> {<<99, 104, 117, 110, 107, 101, 100>>, <<97>>, <<97, 59, 120, 61, 49>>, <<97, 59, 120, 61, 50>>, <<97, 59, 120, 61, 49, 59, 121, 61, 50>>, <<98>>}
PK(x) == IF x = "ag" THEN "at" ELSE x
Init == k \in Kinds /\ a \in Texts(k) /\ b \in Texts(k) /\ c \in Texts(k)
Next == UNCHANGED <<k, a, b, c>>
V(x) == Parse(PK(k), x).v
C(x, y) == Compare(k, V(x), V(y))
Total == C(a, a) = 0 /\ C(a, b) = 0 - C(b, a) /\ (C(a, b) <= 0 /\ C(b, c) <= 0 => C(a, c) <= 0) /\ (C(a, b) = 0 => C(a, c) = C(b, c))
Read == Parse(PK(k), a).st = "ok"
RECURSIVE Loose(_)
Loose(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in {SEMI, EQUALS, COMMA, SLASH} THEN <<SP, s[1], CR, LF, HT>> ELSE <<s[1]>>) \o Loose(Tail(s))
Spacing == k \notin Spaced => Parse(PK(k), Loose(a)) = Parse(PK(k), a)
Inv == Total /\ Read /\ Spacing
============================================================================
