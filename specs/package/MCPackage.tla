----------------------------- MODULE MCPackage -----------------------------
(* All short histories of a small package.  The table is kept up to date by  *)
(* each operation, as an implementation does; it must agree with a new scan, *)
(* and files must last until they are deleted.                               *)
EXTENDS Package, TLC
CONSTANT MaxOps, MaxRefs, Forgetful
VARIABLES s, tab, ghost, n
Pk == <<"r", "pkg">>
Segs == {"a", "b", "d", "..", ".h"}
Hrefs == {[t |-> "rel", s |-> <<x>>] : x \in {"a", "b", ".h", "imsmanifest.xml"}}
         \cup {[t |-> "rel", s |-> <<x, y>>] : x \in {"d", ".."}, y \in {"a", "pkg"}}
         \cup {[t |-> "rel", s |-> <<"d", "..", "a">>], [t |-> "abs", s |-> Pk \o <<"d", "a">>], [t |-> "web", s |-> <<"http:">>]}
Chains == {<<>>, <<[t |-> "rel", s |-> <<"d", "">>]>>, <<[t |-> "rel", s |-> <<"..", "">>]>>}
Outside == {<<"r", "a">>}
(* the table: a set of [p, res, k]: path p, with k references from resource res; res = 0: the entry of the path itself *)
Inc(t, p, r) == LET was == {x \in t : x.p = p /\ x.res = r} k == IF was = {} THEN 0 ELSE (CHOOSE x \in was : TRUE).k IN
  (t \ was) \cup {[p |-> p, res |-> r, k |-> k + 1], [p |-> p, res |-> 0, k |-> 0]}
Scan == {[p |-> p, res |-> 0, k |-> 0] : p \in Keys(s)} \cup
        {[p |-> x[1], res |-> x[2], k |-> Table(s)[x[1]][x[2]]] : x \in {y \in Keys(s) \X (1..Len(s.res)) : Table(s)[y[1]][y[2]] > 0}}
Total == LET f[k \in 0..Len(s.res)] == IF k = 0 THEN 0 ELSE f[k - 1] + Len(s.res[k].refs) IN f[Len(s.res)]
Init == /\ s \in {[pkg |-> Pk, files |-> {}, res |-> <<[bases |-> b, entry |-> <<>>, refs |-> <<>>], [bases |-> c, entry |-> <<>>, refs |-> <<>>]>>] : b \in Chains, c \in {<<>>}}
        /\ tab = {} /\ ghost = {} /\ n = 0
DoFile == \E r \in 1..2, h \in Hrefs : Total < MaxRefs /\ FileErr(s, r, h) = "" /\ s' = AddRef(s, r, h) /\ UNCHANGED ghost /\
  LET p == InPackage(s, Resolve(ResBase(s, s.res[r]), h)) IN tab' = IF p = None THEN tab ELSE Inc(tab, p, r)
(* a copy takes the wanted name, or another one when it is taken *)
DoCopy == \E r \in 1..2, x \in {"a", "b", "imsmanifest.xml", ".h"}, y \in {"a1", "b1", "m1"} : Total < MaxRefs /\ CopyErr(s, r, x) = "" /\
  LET want == Under(CopyDir(s, r), s.pkg) \o <<x>>
      p == IF want \in Taken(s) THEN Front(want) \o <<y>> ELSE want
      h == [t |-> "abs", s |-> s.pkg \o p] IN
  /\ p \notin Taken(s)
  /\ s' = AddFile(AddRef(s, r, h), p, ToString(n)) /\ tab' = Inc(tab, p, r) /\ ghost' = ghost \cup {[p |-> p, c |-> ToString(n)]}
DoEntry == \E r \in 1..2 : \E k \in 1..Len(s.res[r].refs) : s' = [s EXCEPT !.res[r].entry = <<s.res[r].refs[k].h>>] /\ UNCHANGED <<tab, ghost>>
DoDel == \E h \in Hrefs : DelErr(s, Outside, h) = "" /\
  LET p == DelPath(s, h) IN
  /\ s' = IF Forgetful THEN [s EXCEPT !.files = {x \in @ : x.p # p}] ELSE DelFile(s, p)
  /\ tab' = {x \in tab : x.p # p} /\ ghost' = {x \in ghost : x.p # p}
Next == n < MaxOps /\ n' = n + 1 /\ (DoFile \/ DoCopy \/ DoEntry \/ DoDel)
Agrees == tab = Scan
Lasting == s.files = ghost
ManifestSafe == Manifest \notin Paths(s) /\ \A x \in tab : x.p # Manifest
EntryMeans == \A r \in 1..2 : EntryIndex(s, s.res[r]) > 0 /\ s.res[r].entry[1].t # "web" => RefAt(s, s.res[r].refs[EntryIndex(s, s.res[r])]) = EntryAt(s, s.res[r])
=============================================================================
