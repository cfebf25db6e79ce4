------------------------------ MODULE Session ------------------------------
(* Item sessions: declarations, template and response processing, attempts *)
EXTENDS QTI
Names(ds) == {ds[i].id : i \in 1..Len(ds)}
Decl(ds, x) == ds[CHOOSE i \in 1..Len(ds) : ds[i].id = x]
Nul(v) == [v EXCEPT !.v = <<>>, !.f = <<>>, !.g = <<>>]
Builtin(k, v) == [k |-> k, val |-> v, def |-> Nul(v), cor |-> Nul(v), mp |-> <<>>, ar |-> <<>>, sv |-> <<>>]
Start(ds) == [x \in Names(ds) \cup {"numAttempts", "completionStatus"} |->
  IF x = "numAttempts" THEN Builtin("r", Nil("integer"))
  ELSE IF x = "completionStatus" THEN Builtin("o", Nil("identifier"))
  ELSE LET d == Decl(ds, x) IN
    [k |-> d.k, val |-> IF d.k = "T" THEN d.def ELSE Nul(d.def), def |-> d.def, cor |-> d.cor, mp |-> d.mp, ar |-> d.ar, sv |-> <<>>]]
Zero(v) == IF NN(v) \/ v.c # "single" THEN v ELSE IF v.b = "integer" THEN One("integer", <<0>>) ELSE IF v.b = "float" THEN One("float", <<0, 1>>) ELSE v
Reset(S1) == [x \in DOMAIN S1 |-> IF S1[x].k = "O" THEN [S1[x] EXCEPT !.val = Zero(S1[x].def)] ELSE S1[x]]
Txt(s) == s      \* code points of the two statuses are constants below
NOTATT == <<110, 111, 116, 95, 97, 116, 116, 101, 109, 112, 116, 101, 100>>
UNKNOWN == <<117, 110, 107, 110, 111, 119, 110>>
Begin(S1) == [Reset(S1) EXCEPT !["completionStatus"].val = One("identifier", NOTATT), !["numAttempts"].val = One("integer", <<0>>)]
Attempt(S1) == LET n == S1["numAttempts"].val.v[1][1] + 1
                   T == [S1 EXCEPT !["numAttempts"].val = One("integer", <<n>>)] IN
  IF n > 1 THEN T
  ELSE [x \in DOMAIN T |-> IF T[x].k = "R" THEN [T[x] EXCEPT !.val = T[x].def]
                           ELSE IF x = "completionStatus" THEN [T[x] EXCEPT !.val = One("identifier", UNKNOWN)] ELSE T[x]]

(* ------------------------------------------------------------------ rules *)
(* the outcome of running rules: st is ok, exit, err or any                *)
Out(st, S1) == [st |-> st, S |-> S1]
Fits(v, w) == (v.c = "" \/ v.c = w.c) /\ (v.b = "" \/ v.b = w.b)      \* v may be given to a variable now w
Give(w, v) == IF NN(v) THEN v ELSE Nul(w)
Set(r, S1) ==
  LET v == Eval(r.e, S1) IN
  IF v.s # "v" THEN Out(IF v.s = "e" THEN "err" ELSE "any", S1)
  ELSE IF ~Has(S1, r.id) THEN Out("err", S1)
  ELSE LET d == S1[r.id] IN
    CASE r.op = "setOutcomeValue" -> IF d.k \notin {"O", "o"} \/ ~Fits(v, d.val) THEN Out("err", S1) ELSE Out("ok", [S1 EXCEPT ![r.id].val = Give(d.val, v)])
      [] r.op = "setTemplateValue" -> IF d.k # "T" \/ ~Fits(v, d.val) THEN Out("err", S1) ELSE Out("ok", [S1 EXCEPT ![r.id].val = Give(d.val, v)])
      [] r.op = "setCorrectResponse" -> IF d.k # "R" \/ ~Fits(v, d.cor) THEN Out("err", S1) ELSE Out("ok", [S1 EXCEPT ![r.id].cor = Give(d.cor, v)])
      [] r.op = "setDefaultValue" -> IF d.k \notin {"R", "O"} \/ ~Fits(v, d.def) THEN Out("err", S1) ELSE Out("ok", [S1 EXCEPT ![r.id].def = Give(d.def, v)])
RECURSIVE Rules(_, _)
RECURSIVE Branches(_, _)
Rule(r, S1) == IF r.op = "exit" THEN Out("exit", S1) ELSE IF r.op = "cond" THEN Branches(r.br, S1) ELSE Set(r, S1)
Rules(rs, S1) == IF rs = <<>> THEN Out("ok", S1)
  ELSE LET o == Rule(Head(rs), S1) IN IF o.st = "ok" THEN Rules(Tail(rs), o.S) ELSE o
Branches(bs, S1) == IF bs = <<>> THEN Out("ok", S1)
  ELSE LET b == Head(bs) IN
    IF b.e = <<>> THEN Rules(b.rules, S1)
    ELSE LET v == Eval(b.e[1], S1) IN
      IF v.s # "v" THEN Out(IF v.s = "e" THEN "err" ELSE "any", S1)
      ELSE IF ~Typed(<<v>>, "boolean") THEN Out("err", S1)
      ELSE IF v.v = <<<<1>>>> THEN Rules(b.rules, S1) ELSE Branches(Tail(bs), S1)
Process(rs, S1) == LET o == Rules(rs, S1) IN IF o.st = "exit" THEN Out("ok", o.S) ELSE o

(* ---------------------------------------------------------------- actions *)
(* a response submitted with a form is a parsed value for each variable    *)
Save(ps, S1) == [x \in DOMAIN S1 |-> IF \E j \in 1..Len(ps) : ps[j].id = x
  THEN [S1[x] EXCEPT !.sv = <<ps[CHOOSE j \in 1..Len(ps) : ps[j].id = x].v>>] ELSE S1[x]]
Take(S1) == [x \in DOMAIN S1 |-> IF S1[x].sv # <<>> THEN [S1[x] EXCEPT !.val = S1[x].sv[1], !.sv = <<>>] ELSE S1[x]]
EndAttempt(rs, adaptive, S1) == Process(rs, IF adaptive THEN S1 ELSE Reset(S1))
Bads(ps, S1) == \E j \in 1..Len(ps) : ps[j].bad \/ ~Has(S1, ps[j].id) \/ S1[ps[j].id].k # "R"
Act(a, R, S1) ==
  CASE a.a = "clone" -> Process(R.trules, S1)
    [] a.a = "begin" -> Out("ok", Begin(S1))
    [] a.a = "attempt" -> Out("ok", Attempt(S1))
    [] a.a = "save" -> IF Bads(a.ps, S1) THEN Out("refused", S1) ELSE Out("ok", Save(a.ps, S1))
    [] a.a = "submit" -> IF Bads(a.ps, S1) THEN Out("refused", S1) ELSE EndAttempt(R.rrules, R.adaptive, Take(Save(a.ps, S1)))
    [] a.a = "end" -> EndAttempt(R.rrules, R.adaptive, S1)
=============================================================================
