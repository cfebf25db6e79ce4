----------------------------- MODULE PackageTrace -----------------------------
(* Judges histories of real content packages and the unpacking of archives.  *)
EXTENDS Package, TLC, Json, IOUtils
Log == ndJsonDeserialize(IOEnv.VQ_LOG)
W == 64
VARIABLE i
Init == i \in 1..(IF Len(Log) < W THEN Len(Log) ELSE W)
Next == i + W <= Len(Log) /\ i' = i + W
R == Log[i]
FilesOf(fs) == {[p |-> f.p, c |-> f.c] : f \in RangeOf(fs)}
(* what was seen of a real package agrees with the state *)
Same(s, o) ==
  /\ FilesOf(o.files) = s.files
  /\ {t.p : t \in RangeOf(o.table)} = Keys(s)
  /\ \A t \in RangeOf(o.table) : t.n = Table(s)[t.p]
  /\ Len(o.res) = Len(s.res)
  /\ \A n \in 1..Len(s.res) :
       /\ o.res[n].refs = [k \in 1..Len(s.res[n].refs) |-> s.res[n].refs[k].h]
       /\ o.res[n].paths = [k \in 1..Len(s.res[n].refs) |-> RefPath(s, s.res[n].refs[k])]
       /\ o.res[n].entry = EntryIndex(s, s.res[n])
(* the state after an operation, or <<>> if its outcome is wrong; names and hrefs that the package is free to choose are taken from the outcome *)
UniqueOK(s, p, want, codes, wcodes) ==
  /\ p # None /\ p # <<>>
  /\ IF want \notin Taken(s) THEN p = want
     ELSE p \notin Taken(s) /\ Front(p) = Front(want) /\ Variant(codes, wcodes)
Free(s, n, h) == [s EXCEPT !.res[n].refs = Append(@, [bases |-> s.res[n].bases, h |-> h])]
Step(s, o, outside) ==
  LET e == CASE o.op = "file" -> FileErr(s, o.r, o.h)
             [] o.op = "copy" -> CopyErr(s, o.r, o.name)
             [] o.op = "del" -> DelErr(s, outside, o.h)
             [] o.op = "uniq" -> UniqErr(s, o.low)
             [] OTHER -> "" IN
  IF o.st # e THEN <<>>
  ELSE IF e # "" THEN <<s>>
  ELSE CASE o.op = "res" -> <<[s EXCEPT !.res = Append(@, [bases |-> o.bases, entry |-> <<>>, refs |-> <<>>])]>>
         [] o.op = "file" -> LET t == AddRef(s, o.r, o.got) b == ResBase(s, s.res[o.r]) IN
                             IF Resolve(b, o.got) = Resolve(b, o.h) /\ (o.h.t = "web" => o.got = o.h) /\ (o.h.t = "abs" => o.got.t = "rel") THEN <<t>> ELSE <<>>
         [] o.op = "copy" -> LET want == Under(CopyDir(s, o.r), s.pkg) \o <<o.name>>
                                 p == InPackage(s, Resolve(ResBase(s, s.res[o.r]), o.got)) IN
                             IF ~UniqueOK(s, p, want, o.codes, o.wcodes) THEN <<>>
                             ELSE LET t == AddRef(s, o.r, o.got) IN <<IF o.there THEN AddFile(t, p, o.c) ELSE t>>
         [] o.op = "del" -> <<DelFile(s, DelPath(s, o.h))>>
         [] o.op = "uniq" -> IF UniqueOK(s, o.got, Under(UniqAt(s, o.low), s.pkg), o.codes, o.wcodes) THEN <<s>> ELSE <<>>
         [] o.op = "entry" -> LET t == [s EXCEPT !.res[o.r].entry = <<o.got>>] f == s.res[o.r].refs[o.k] IN
                              IF (IF f.h.t = "web" THEN o.got = f.h ELSE EntryAt(t, t.res[o.r]) = RefAt(s, f)) THEN <<t>> ELSE <<>>
         [] o.op = "put" -> <<AddFile(s, o.p, o.c)>>
         [] o.op = "open" -> <<s>>
         [] o.op = "pif" -> <<Moved(s, o.pkg)>>
RECURSIVE Run(_, _, _)
Run(s, r, k) ==
  IF k > Len(r.steps) THEN [bad |-> 0, err |-> "", s |-> s]
  ELSE LET o == r.steps[k] t == Step(s, o, RangeOf(r.outside)) IN
       IF t = <<>> THEN [bad |-> k, err |-> "outcome", s |-> s]
       ELSE IF ~Same(t[1], o.see) THEN [bad |-> k, err |-> "state", s |-> t[1]]
       ELSE IF FilesOf(o.out) # FilesOf(r.out0) THEN [bad |-> k, err |-> "outside", s |-> t[1]]
       ELSE Run(t[1], r, k + 1)
Start(r) == [pkg |-> r.pkg, files |-> FilesOf(r.files), res |-> r.res]
History(r) ==
  IF r.st # "" THEN [bad |-> 1, err |-> "crash", s |-> Start(r)]
  ELSE IF ~Same(Start(r), r.see) THEN [bad |-> 1, err |-> "start", s |-> Start(r)]
  ELSE LET v == Run(Start(r), r, 1) IN
       IF v.bad = 0 /\ ~r.closed THEN [v EXCEPT !.bad = 1, !.err = "close"] ELSE v
Archive(r) ==
  LET z == Unpack([st |-> "ok", pkg |-> r.pkg, files |-> {}, dirs |-> {r.pkg}], r.entries)
      want == {[p |-> Under(x.p, r.pkg), c |-> x.c] : x \in z.files}
      ok == /\ CASE z.st = "ok" -> r.st = "" /\ FilesOf(r.see) = want
                 [] z.st = "any" -> r.st # ""
                 [] OTHER -> r.st = z.st
            /\ r.closed /\ r.out = <<>> IN
  [bad |-> IF ok THEN 0 ELSE 1, err |-> z.st, s |-> want]
Judge == PrintT(ToJson(LET v == IF R.k = "zip" THEN Archive(R) ELSE History(R) IN
  [bad |-> IF v.bad = 0 THEN 0 ELSE i, at |-> v.bad, err |-> v.err,
   want |-> IF v.bad = 0 THEN "" ELSE ToString(v.s), table |-> IF v.bad = 0 \/ R.k = "zip" THEN "" ELSE ToString(Table(v.s))]))
=============================================================================
