----------------------------- MODULE Package -----------------------------
(* A content package: a directory with files and a manifest whose            *)
(* resources refer to files.  Paths are sequences of segments from the root  *)
(* of a scratch file system.                                                 *)
EXTENDS Naturals, Sequences, FiniteSets

None == <<"none">>
Manifest == <<"imsmanifest.xml">>
HiddenNames == {".h", ".svn"}

Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Within(p, d) == Len(p) >= Len(d) /\ SubSeq(p, 1, Len(d)) = d
Under(p, d) == SubSeq(p, Len(d) + 1, Len(p))
RangeOf(s) == {s[j] : j \in 1..Len(s)}
HiddenPath(p) == RangeOf(p) \cap HiddenNames # {}

(* ---- references: "." and ".." removed (RFC 2396, 5.2) ---- *)
RECURSIVE Dots(_, _)
Dots(done, todo) ==
  IF todo = <<>> THEN done
  ELSE LET s == Head(todo) last == Tail(todo) = <<>> IN
       IF s = "." THEN Dots(IF last THEN Append(done, "") ELSE done, Tail(todo))
       ELSE IF s = ".." THEN LET up == IF done = <<>> THEN done ELSE Front(done) IN Dots(IF last THEN Append(up, "") ELSE up, Tail(todo))
       ELSE Dots(Append(done, s), Tail(todo))
(* what reference h (relative, absolute or to the web) means where the base is the path b *)
Web == <<"web">>
Resolve(b, h) ==
  IF h.t = "web" \/ b = Web THEN Web
  ELSE IF h.t = "abs" THEN Dots(<<>>, h.s)
  ELSE IF h.s = <<"">> THEN b
  ELSE Dots(<<>>, Front(b) \o h.s)
(* a chain of xml:base values, outermost first *)
RECURSIVE Base(_, _)
Base(b, chain) == IF chain = <<>> THEN b ELSE Base(Resolve(b, Head(chain)), Tail(chain))
(* file system paths: also no empty segments *)
Norm(p) == Dots(<<>>, SelectSeq(p, LAMBDA s : s # "" /\ s # "."))

(* ---- the state: where the package is, its files, its resources ----
   files: a set of [p, c], without the manifest
   res: a sequence of [bases, entry, refs], refs a sequence of [bases, h]; bases is the whole chain, entry is None or a reference *)
DocBase(s) == s.pkg \o Manifest
ResBase(s, r) == Base(DocBase(s), r.bases)
RefAt(s, f) == Resolve(Base(DocBase(s), f.bases), f.h)
InPackage(s, a) == IF a # Web /\ Within(a, s.pkg) THEN Under(a, s.pkg) ELSE None
RefPath(s, f) == InPackage(s, RefAt(s, f))
Paths(s) == {x.p : x \in s.files}
Seen(s) == {p \in Paths(s) : ~HiddenPath(p)}
(* how often resource n refers to path p *)
RefCount(s, n, p) == Cardinality({k \in 1..Len(s.res[n].refs) : RefPath(s, s.res[n].refs[k]) = p})
Keys(s) == (Seen(s) \cup UNION {{RefPath(s, f) : f \in RangeOf(s.res[n].refs)} : n \in 1..Len(s.res)}) \ {None}
Table(s) == [p \in Keys(s) |-> [n \in 1..Len(s.res) |-> RefCount(s, n, p)]]
(* the file that is a resource's entry point: the first that means the same *)
EntryAt(s, r) == Resolve(ResBase(s, r), r.entry[1])
EntryIndex(s, r) ==
  IF r.entry = <<>> THEN 0
  ELSE LET hits == {k \in 1..Len(r.refs) : IF r.entry[1].t = "web" THEN r.refs[k].h = r.entry[1] ELSE RefAt(s, r.refs[k]) = EntryAt(s, r)} IN
       IF hits = {} THEN 0 ELSE CHOOSE k \in hits : \A j \in hits : k <= j

(* ---- names ---- *)
Dot == 46
(* the place where the extension of a name begins: its last point, unless only points come before *)
ExtAt(n) ==
  LET ds == {k \in 1..Len(n) : n[k] = Dot /\ \E j \in 1..(k - 1) : n[j] # Dot} IN
  IF ds = {} THEN Len(n) + 1 ELSE CHOOSE k \in ds : \A j \in ds : j <= k
Stem(n) == SubSeq(n, 1, ExtAt(n) - 1)
Ext(n) == SubSeq(n, ExtAt(n), Len(n))
(* n is a variant of the name m: something put between the stem and the extension *)
Variant(n, m) ==
  LET a == Stem(m) e == Ext(m) IN
  /\ Len(n) > Len(m) + 1
  /\ SubSeq(n, 1, Len(a) + 1) = Append(a, 95)
  /\ SubSeq(n, Len(n) - Len(e) + 1, Len(n)) = e
Taken(s) == Keys(s) \cup {Manifest}

(* ---- operations: the errors; anything else must succeed ---- *)
FilePathErr(s, a) == LET p == InPackage(s, Norm(a)) IN Last(a) \in HiddenNames \/ p \in {None, <<>>, Manifest}
FileErr(s, n, h) == LET a == Resolve(ResBase(s, s.res[n]), h) IN IF a = Web THEN "" ELSE IF FilePathErr(s, a) THEN "CPFilePathError" ELSE ""
(* the directory that copies for resource n go into *)
CopyDir(s, n) ==
  LET r == s.res[n] k == EntryIndex(s, r) IN
  IF k = 0 THEN s.pkg ELSE IF RefAt(s, r.refs[k]) = Web THEN s.pkg ELSE Norm(Front(RefAt(s, r.refs[k])))
CopyErr(s, n, name) == IF ~Within(CopyDir(s, n), s.pkg) \/ name \in HiddenNames THEN "CPFilePathError" ELSE ""
(* outside: paths of files that are not in the package *)
DelErr(s, outside, h) ==
  LET a == Resolve(DocBase(s), h) p == InPackage(s, Norm(a)) IN
  IF a = Web THEN "CPProtocolError"
  ELSE IF p # Manifest /\ p \notin Paths(s) /\ Norm(a) \notin outside THEN "CPFileTypeError"
  ELSE IF FilePathErr(s, a) THEN "CPFilePathError" ELSE ""
DelPath(s, h) == InPackage(s, Norm(Resolve(DocBase(s), h)))
UniqAt(s, h) == IF h.t = "abs" THEN Norm(h.s) ELSE Norm(s.pkg \o h.s)
UniqErr(s, h) == IF Within(UniqAt(s, h), s.pkg) THEN "" ELSE "CPFilePathError"

(* ---- and what they do ---- *)
AddRef(s, n, h) == [s EXCEPT !.res[n].refs = Append(@, [bases |-> s.res[n].bases, h |-> h])]
AddFile(s, p, c) == [s EXCEPT !.files = {x \in @ : x.p # p} \cup {[p |-> p, c |-> c]}]
DelRefs(s, p) == [s EXCEPT !.res = [n \in 1..Len(s.res) |-> [s.res[n] EXCEPT !.refs = SelectSeq(@, LAMBDA f : RefPath(s, f) # p)]]]
DelFile(s, p) == [DelRefs(s, p) EXCEPT !.files = {x \in @ : x.p # p}]
(* packed and unpacked in another place *)
Moved(s, pkg) == [s EXCEPT !.pkg = pkg, !.files = {x \in @ : ~HiddenPath(x.p)}]

(* ---- archives: entries are unpacked in order ----
   st: "ok" or the error; names with an empty segment at the end are directories *)
RECURSIVE Walk(_, _, _)
(* z: [st, files, dirs]; path: so far, from the scratch root *)
Walk(z, path, segs) ==
  IF segs = <<>> THEN [z |-> z, path |-> path]
  ELSE IF path \in {x.p : x \in z.files} THEN [z |-> [z EXCEPT !.st = "any"], path |-> path]
  ELSE LET z2 == [z EXCEPT !.dirs = @ \cup {path}]
           s == Head(segs)
           up == IF s = ".." THEN Front(path) ELSE IF s \in {"", "."} THEN path ELSE Append(path, s) IN
       IF ~Within(up, z.pkg) THEN [z |-> [z2 EXCEPT !.st = "CPZIPFilenameError"], path |-> up] ELSE Walk(z2, up, Tail(segs))
Unpack1(z, e) ==
  LET w == Walk(z, z.pkg, e.s) IN
  IF w.z.st # "ok" THEN w.z
  ELSE IF w.path \in w.z.dirs THEN (IF e.c = "" THEN w.z ELSE [w.z EXCEPT !.st = "CPZIPDirectorySizeError"])
  ELSE IF w.path \in {x.p : x \in w.z.files} THEN [w.z EXCEPT !.st = "CPZIPDuplicateFileError"]
  ELSE [w.z EXCEPT !.files = @ \cup {[p |-> w.path, c |-> e.c]}]
RECURSIVE Unpack(_, _)
Unpack(z, es) == IF es = <<>> \/ z.st # "ok" THEN z ELSE Unpack(Unpack1(z, Head(es)), Tail(es))
=============================================================================
