----------------------------- MODULE MCMigrate -----------------------------
(* The list of conditions and the nested rules fire the same conditions, for  *)
(* every list of up to MaxLen conditions, whichever of them match.            *)
EXTENDS Migrate
CONSTANT MaxLen
VARIABLE cs
Init == cs = <<>>
Next == Len(cs) < MaxLen /\ \E h \in BOOLEAN, c \in {0, 1} : cs' = Append(cs, [n |-> Len(cs) + 1, hit |-> h, cont |-> c])
Agree == Fire(Nest(cs)) = Taken(cs)
=============================================================================
