------------------------------- MODULE XML ----------------------------------
(* XML 1.0 (fifth edition): well-formedness and what a non-validating       *)
(* processor reports (elements, attributes with declared defaults, merged   *)
(* character data), for documents whose only DTD is an internal subset      *)
(* without parameter entity references.  Text is a sequence of code points. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Lit

------------------------------------------------------------- (* characters *)
IsS(c) == c \in {32, 9, 10, 13}
IsChar(c) == c \in {9, 10, 13} \/ (c >= 32 /\ c <= 55295) \/ (c >= 57344 /\ c <= 65533) \/ (c >= 65536 /\ c <= 1114111)
NameStart(c) == c = 58 \/ (c >= 65 /\ c <= 90) \/ c = 95 \/ (c >= 97 /\ c <= 122) \/ (c >= 192 /\ c <= 214) \/ (c >= 216 /\ c <= 246)
  \/ (c >= 248 /\ c <= 767) \/ (c >= 880 /\ c <= 893) \/ (c >= 895 /\ c <= 8191) \/ (c >= 8204 /\ c <= 8205) \/ (c >= 8304 /\ c <= 8591)
  \/ (c >= 11264 /\ c <= 12271) \/ (c >= 12289 /\ c <= 55295) \/ (c >= 63744 /\ c <= 64975) \/ (c >= 65008 /\ c <= 65533)
NameChar(c) == NameStart(c) \/ c = 45 \/ c = 46 \/ (c >= 48 /\ c <= 57) \/ c = 183 \/ (c >= 768 /\ c <= 879) \/ (c >= 8255 /\ c <= 8256)
IsDigit(c) == c >= 48 /\ c <= 57
HexVal(c) == IF IsDigit(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE -1
PubidChar(c) == c \in {32, 13, 10} \/ IsDigit(c) \/ (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
  \/ c \in {45, 39, 40, 41, 43, 44, 46, 47, 58, 61, 63, 59, 33, 42, 35, 64, 36, 95, 37}
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c

---------------------------------------------------------------- (* scanning *)
At(s, p) == IF p <= Len(s) THEN s[p] ELSE 0
Has(s, p, l) == p + Len(l) - 1 <= Len(s) /\ \A i \in 1..Len(l) : s[p + i - 1] = l[i]
Min(A) == CHOOSE x \in A : \A y \in A : x <= y
\* first position >= p where Test fails / holds (Len + 1 when there is none)
First(s, p, Test(_)) == LET A == {i \in p..Len(s) : Test(s[i])} IN IF A = {} THEN Len(s) + 1 ELSE Min(A)
SkipS(s, p) == First(s, p, LAMBDA c : ~IsS(c))
Find(s, p, l) == LET A == {i \in p..(Len(s) - Len(l) + 1) : Has(s, i, l)} IN IF A = {} THEN 0 ELSE Min(A)
NameEnd(s, p) == IF NameStart(At(s, p)) THEN First(s, p, LAMBDA c : ~NameChar(c)) ELSE p
Sub(s, p, q) == SubSeq(s, p, q - 1)
Chars(s) == \A i \in 1..Len(s) : IsChar(s[i])
Quote(c) == c = 34 \/ c = 39

F == [ok |-> FALSE, p |-> 0, v |-> <<>>, u |-> FALSE]
U == [ok |-> FALSE, p |-> 0, v |-> <<>>, u |-> TRUE]     \* outside the specified part of the language
G(p, v) == [ok |-> TRUE, p |-> p, v |-> v, u |-> FALSE]

\* end of line handling
RECURSIVE Norm(_, _, _)
Norm(s, i, a) == IF i > Len(s) THEN a
  ELSE IF s[i] = 13 THEN Norm(s, IF At(s, i + 1) = 10 THEN i + 2 ELSE i + 1, Append(a, 10))
  ELSE LET q == First(s, i, LAMBDA c : c = 13) IN Norm(s, q, a \o Sub(s, i, q))

-------------------------------------------------------------- (* references *)
RECURSIVE Dec(_, _, _, _), Hex(_, _, _, _)
Dec(s, p, q, a) == IF p >= q THEN a ELSE IF a > 2000000 THEN a ELSE Dec(s, p + 1, q, a * 10 + s[p] - 48)
Hex(s, p, q, a) == IF p >= q THEN a ELSE IF a > 2000000 THEN a ELSE Hex(s, p + 1, q, a * 16 + HexVal(s[p]))
\* at "&#"
CharRef(s, p) ==
  LET x == Has(s, p, L_HEX)  b == IF x THEN p + 3 ELSE p + 2
      q == IF x THEN First(s, b, LAMBDA c : HexVal(c) < 0) ELSE First(s, b, LAMBDA c : ~IsDigit(c))
      n == IF x THEN Hex(s, b, q, 0) ELSE Dec(s, b, q, 0)
  IN IF q = b \/ At(s, q) # 59 \/ ~IsChar(n) THEN F ELSE G(q + 1, <<n>>)
\* at "&name"
EntRef(s, p) == LET q == NameEnd(s, p + 1) IN IF q = p + 1 \/ At(s, q) # 59 THEN F ELSE G(q + 1, Sub(s, p + 1, q))
Predef(n) == CASE n = L_LT -> 60 [] n = L_GT -> 62 [] n = L_AMP -> 38 [] n = L_APOS -> 39 [] n = L_QUOT -> 34 [] OTHER -> 0

\* D: [sa, ents, atts]: standalone?, sequences of declarations (the first for a name binds)
Lookup(es, n) == LET A == {i \in 1..Len(es) : es[i].n = n} IN IF A = {} THEN [n |-> n, k |-> "none", v |-> <<>>] ELSE es[Min(A)]

\* attribute value from p up to the quote q (0: the whole text, the replacement text of an entity)
RECURSIVE AttVal(_, _, _, _, _, _)
AttVal(D, s, p, q, stk, a) ==
  LET e == First(s, p, LAMBDA c : c = 38 \/ c = 60 \/ c = q)
      t == Sub(s, p, e)
      a1 == a \o [i \in 1..Len(t) |-> IF IsS(t[i]) THEN 32 ELSE t[i]]
  IN IF ~Chars(t) THEN F
     ELSE IF e > Len(s) THEN (IF q = 0 THEN G(e, a1) ELSE F)
     ELSE IF s[e] = q THEN G(e + 1, a1)
     ELSE IF s[e] = 60 THEN F
     ELSE IF At(s, e + 1) = 35 THEN LET r == CharRef(s, e) IN IF ~r.ok THEN r ELSE AttVal(D, s, r.p, q, stk, a1 \o r.v)
     ELSE LET r == EntRef(s, e) IN
       IF ~r.ok THEN r
       ELSE IF Predef(r.v) # 0 THEN AttVal(D, s, r.p, q, stk, Append(a1, Predef(r.v)))
       ELSE LET d == Lookup(D.ents, r.v) IN
         CASE d.k = "int" -> IF r.v \in stk THEN F
                ELSE LET x == AttVal(D, d.v, 1, 0, stk \cup {r.v}, <<>>) IN IF ~x.ok THEN x ELSE AttVal(D, s, r.p, q, stk, a1 \o x.v)
           [] d.k = "none" -> IF D.sa THEN F ELSE U
           [] OTHER -> F
QAttVal(D, s, p) == IF Quote(At(s, p)) THEN AttVal(D, s, p + 1, s[p], {}, <<>>) ELSE F

RECURSIVE Collapse(_, _)
\* further normalization of tokenized types
Collapse(v, a) == LET b == First(v, 1, LAMBDA c : c # 32) IN
  IF b > Len(v) THEN a
  ELSE LET e == First(v, b, LAMBDA c : c = 32) IN Collapse(Sub(v, e, Len(v) + 1), (IF a = <<>> THEN a ELSE Append(a, 32)) \o Sub(v, b, e))

------------------------------------------------ (* comments, PIs, literals *)
Comment(s, p) == LET q == Find(s, p + 4, L_DD) IN
  IF q = 0 \/ At(s, q + 2) # 62 \/ ~Chars(Sub(s, p + 4, q)) THEN F ELSE G(q + 3, <<>>)
PIx(s, p) == LET q == NameEnd(s, p + 2)  t == Sub(s, p + 2, q)  e == Find(s, q, L_PIEND) IN
  IF q = p + 2 \/ (Len(t) = 3 /\ [i \in 1..3 |-> Lower(t[i])] = L_XML) \/ e = 0 THEN F
  ELSE IF ~(e = q \/ IsS(s[q])) \/ ~Chars(Sub(s, q, e)) THEN F ELSE G(e + 2, <<>>)
Lit2(s, p, Test(_)) == IF ~Quote(At(s, p)) THEN F
  ELSE LET q == First(s, p + 1, LAMBDA c : c = s[p]) t == Sub(s, p + 1, q) IN
       IF q > Len(s) \/ \E i \in 1..Len(t) : ~Test(t[i]) THEN F ELSE G(q + 1, t)
Eq(s, p) == LET q == SkipS(s, p) IN IF At(s, q) = 61 THEN G(SkipS(s, q + 1), <<>>) ELSE F
RECURSIVE Misc(_, _)
Misc(s, p) == LET q == SkipS(s, p) IN
  IF Has(s, q, L_CMT) THEN LET r == Comment(s, q) IN IF r.ok THEN Misc(s, r.p) ELSE r
  ELSE IF Has(s, q, L_PI) THEN LET r == PIx(s, q) IN IF r.ok THEN Misc(s, r.p) ELSE r
  ELSE G(q, <<>>)

--------------------------------------------------------- (* XML declaration *)
\* name="value" preceded by white space already skipped
DeclAtt(s, p, name, Test(_)) ==
  IF ~Has(s, p, name) THEN F
  ELSE LET e == Eq(s, p + Len(name)) IN IF ~e.ok THEN F ELSE LET l == Lit2(s, e.p, LAMBDA c : TRUE) IN IF l.ok /\ Test(l.v) THEN l ELSE F
IsVersion(v) == Len(v) > 2 /\ Has(v, 1, L_V1) /\ \A i \in 3..Len(v) : IsDigit(v[i])
IsAlpha(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)
IsEncName(v) == v # <<>> /\ IsAlpha(v[1]) /\ \A i \in 1..Len(v) : IsAlpha(v[i]) \/ IsDigit(v[i]) \/ v[i] \in {46, 95, 45}
IsYesNo(v) == v = L_YES \/ v = L_NO
\* v = <<1>> when declared standalone
XMLDecl(s) ==
  IF ~(Has(s, 1, L_XMLDECL) /\ ~NameChar(At(s, 6))) THEN G(1, <<0>>)
  ELSE LET v == IF IsS(At(s, 6)) THEN DeclAtt(s, SkipS(s, 6), L_VERSION, IsVersion) ELSE F IN
  IF ~v.ok THEN F
  ELSE LET pe == SkipS(s, v.p)
           en == IF pe > v.p /\ Has(s, pe, L_ENCODING) THEN DeclAtt(s, pe, L_ENCODING, IsEncName) ELSE G(v.p, <<>>)
       IN IF ~en.ok THEN F
  ELSE LET ps == SkipS(s, en.p)
           sd == IF ps > en.p /\ Has(s, ps, L_STANDALONE) THEN DeclAtt(s, ps, L_STANDALONE, IsYesNo) ELSE G(en.p, <<>>)
       IN IF ~sd.ok THEN F
  ELSE LET q == SkipS(s, sd.p) IN IF Has(s, q, L_PIEND) THEN G(q + 2, IF sd.v = L_YES THEN <<1>> ELSE <<0>>) ELSE F

-------------------------------------------------------- (* internal subset *)
\* EntityValue: character references are replaced, general entity references kept; no parameter entities here
RECURSIVE EVal(_, _, _, _)
EVal(s, p, q, a) ==
  LET e == First(s, p, LAMBDA c : c \in {38, 37, q})  t == Sub(s, p, e) IN
  IF ~Chars(t) \/ e > Len(s) THEN F
  ELSE IF s[e] = q THEN G(e + 1, a \o t)
  ELSE IF s[e] = 37 THEN F
  ELSE IF At(s, e + 1) = 35 THEN LET r == CharRef(s, e) IN IF r.ok THEN EVal(s, r.p, q, a \o t \o r.v) ELSE F
  ELSE LET r == EntRef(s, e) IN IF r.ok THEN EVal(s, r.p, q, a \o t \o Sub(s, e, r.p)) ELSE F
\* ExternalID; pub: a public identifier alone is enough
ExtID(s, p, pub) ==
  IF Has(s, p, L_SYSTEM) THEN (IF IsS(At(s, p + 6)) THEN Lit2(s, SkipS(s, p + 6), IsChar) ELSE F)
  ELSE IF Has(s, p, L_PUBLIC) /\ IsS(At(s, p + 6))
  THEN LET r == Lit2(s, SkipS(s, p + 6), PubidChar) q == SkipS(s, r.p) IN
       IF ~r.ok THEN F
       ELSE IF q > r.p /\ Quote(At(s, q)) THEN Lit2(s, q, IsChar)
       ELSE IF pub THEN G(r.p, <<>>) ELSE F
  ELSE F
Close(s, p, v) == LET q == SkipS(s, p) IN IF At(s, q) = 62 THEN G(q + 1, v) ELSE F
ReqS(s, p) == IF IsS(At(s, p)) THEN G(SkipS(s, p), <<>>) ELSE F
\* required white space, a name: v = the name
SName(s, p) == LET r == ReqS(s, p) IN IF ~r.ok THEN F ELSE LET q == NameEnd(s, r.p) IN IF q = r.p THEN F ELSE G(q, Sub(s, r.p, q))

EntityDecl(s, p) ==       \* v = <<declaration>> or <<>>
  LET r0 == ReqS(s, p) IN
  IF ~r0.ok THEN F
  ELSE LET pe == At(s, r0.p) = 37
           nm == IF pe THEN SName(s, r0.p + 1) ELSE LET q == NameEnd(s, r0.p) IN IF q = r0.p THEN F ELSE G(q, Sub(s, r0.p, q))
       IN IF ~nm.ok THEN F
  ELSE LET d == ReqS(s, nm.p) IN
  IF ~d.ok THEN F
  ELSE IF Quote(At(s, d.p))
  THEN LET v == EVal(s, d.p + 1, s[d.p], <<>>) IN
       IF ~v.ok THEN F ELSE Close(s, v.p, IF pe THEN <<>> ELSE <<[n |-> nm.v, k |-> "int", v |-> v.v]>>)
  ELSE LET x == ExtID(s, d.p, FALSE) IN
       IF ~x.ok THEN F
       ELSE LET q == SkipS(s, x.p) IN
            IF ~pe /\ q > x.p /\ Has(s, q, L_NDATA)
            THEN LET nn == SName(s, q + 5) IN IF nn.ok THEN Close(s, nn.p, <<[n |-> nm.v, k |-> "unp", v |-> <<>>]>>) ELSE F
            ELSE Close(s, x.p, IF pe THEN <<>> ELSE <<[n |-> nm.v, k |-> "ext", v |-> <<>>]>>)

Occ(s, p) == IF At(s, p) \in {63, 42, 43} THEN p + 1 ELSE p
RECURSIVE CP(_, _), CPList(_, _, _)
CP(s, p) == IF At(s, p) = 40 THEN LET r == CP(s, SkipS(s, p + 1)) IN IF r.ok THEN CPList(s, SkipS(s, r.p), 0) ELSE F
            ELSE LET q == NameEnd(s, p) IN IF q = p THEN F ELSE G(Occ(s, q), <<>>)
\* after a particle of a group; sep: 0 not known yet
CPList(s, p, sep) ==
  LET c == At(s, p) IN
  IF c = 41 THEN G(Occ(s, p + 1), <<>>)
  ELSE IF c \in {44, 124} /\ (sep = 0 \/ sep = c)
  THEN LET r == CP(s, SkipS(s, p + 1)) IN IF r.ok THEN CPList(s, SkipS(s, r.p), c) ELSE F
  ELSE F
RECURSIVE Mixed(_, _, _)
Mixed(s, p, n) == LET q == SkipS(s, p) IN
  IF At(s, q) = 41 THEN (IF n = 0 THEN G(IF At(s, q + 1) = 42 THEN q + 2 ELSE q + 1, <<>>) ELSE IF At(s, q + 1) = 42 THEN G(q + 2, <<>>) ELSE F)
  ELSE IF At(s, q) = 124 THEN LET b == SkipS(s, q + 1) e == NameEnd(s, b) IN IF e = b THEN F ELSE Mixed(s, e, n + 1)
  ELSE F
ElementDecl(s, p) ==
  LET n == SName(s, p) IN IF ~n.ok THEN F
  ELSE LET d == ReqS(s, n.p) IN IF ~d.ok THEN F
  ELSE LET c == IF Has(s, d.p, L_EMPTY) THEN G(d.p + 5, <<>>)
                ELSE IF Has(s, d.p, L_ANY) THEN G(d.p + 3, <<>>)
                ELSE IF At(s, d.p) # 40 THEN F
                ELSE LET q == SkipS(s, d.p + 1) IN
                     IF Has(s, q, L_PCDATA) THEN Mixed(s, q + 7, 0) ELSE CP(s, d.p)
       IN IF c.ok THEN Close(s, c.p, <<>>) ELSE F

RECURSIVE Tokens(_, _, _)
\* ( token | token ... ) from after "(": names or name tokens
Tokens(s, p, nm) == LET b == SkipS(s, p)  e == IF nm THEN NameEnd(s, b) ELSE First(s, b, LAMBDA c : ~NameChar(c))  q == SkipS(s, e) IN
  IF e = b THEN F ELSE IF At(s, q) = 41 THEN G(q + 1, <<>>) ELSE IF At(s, q) = 124 THEN Tokens(s, q + 1, nm) ELSE F
AttType(s, p) ==          \* v = <<1>> for CDATA
  IF Has(s, p, L_CDATA) THEN G(p + 5, <<1>>)
  ELSE IF Has(s, p, L_NOTN) THEN LET r == ReqS(s, p + 8) IN IF r.ok /\ At(s, r.p) = 40 THEN Tokens(s, r.p + 1, TRUE) ELSE F
  ELSE IF At(s, p) = 40 THEN Tokens(s, p + 1, FALSE)
  ELSE LET A == {l \in {L_ID, L_IDREF, L_IDREFS, L_ENTITY1, L_ENTITIES, L_NMTOKEN, L_NMTOKENS} : Has(s, p, l)} IN
       IF A = {} THEN F ELSE LET l == CHOOSE l \in A : \A m \in A : Len(m) <= Len(l) IN G(p + Len(l), <<>>)
DefaultDecl(D, s, p, cdata) ==      \* v = <<value>> or <<>>
  IF Has(s, p, L_REQUIRED) THEN G(p + 9, <<>>)
  ELSE IF Has(s, p, L_IMPLIED) THEN G(p + 8, <<>>)
  ELSE LET fx == IF Has(s, p, L_FIXED) THEN ReqS(s, p + 6) ELSE G(p, <<>>) IN
       IF ~fx.ok THEN F
       ELSE LET v == QAttVal(D, s, fx.p) IN IF v.ok THEN G(v.p, <<IF cdata THEN v.v ELSE Collapse(v.v, <<>>)>>) ELSE v
RECURSIVE AttDefs(_, _, _, _, _)
AttDefs(D, s, p, el, a) ==          \* v = sequence of definitions
  LET q == SkipS(s, p) IN
  IF At(s, q) = 62 THEN G(q + 1, a)
  ELSE LET n == SName(s, p) IN IF ~n.ok THEN F
  ELSE LET t0 == ReqS(s, n.p) IN IF ~t0.ok THEN F
  ELSE LET t == AttType(s, t0.p) IN IF ~t.ok THEN F
  ELSE LET d0 == ReqS(s, t.p) IN IF ~d0.ok THEN F
  ELSE LET d == DefaultDecl(D, s, d0.p, t.v = <<1>>) IN IF ~d.ok THEN d
  ELSE AttDefs(D, s, d.p, el, Append(a, [n |-> <<el, n.v>>, cdata |-> t.v = <<1>>, d |-> d.v]))
RECURSIVE Subset(_, _, _)
\* v = [ents, atts] at the closing bracket
Subset(D, s, p) ==
  LET q == SkipS(s, p) IN
  IF At(s, q) = 93 THEN G(q + 1, D)
  ELSE IF At(s, q) = 37 THEN U
  ELSE IF Has(s, q, L_CMT) THEN LET r == Comment(s, q) IN IF r.ok THEN Subset(D, s, r.p) ELSE F
  ELSE IF Has(s, q, L_PI) THEN LET r == PIx(s, q) IN IF r.ok THEN Subset(D, s, r.p) ELSE F
  ELSE IF Has(s, q, L_ELEMENT) THEN LET r == ElementDecl(s, q + 9) IN IF r.ok THEN Subset(D, s, r.p) ELSE F
  ELSE IF Has(s, q, L_ENTITY) THEN LET r == EntityDecl(s, q + 8) IN IF r.ok THEN Subset([D EXCEPT !.ents = @ \o r.v], s, r.p) ELSE F
  ELSE IF Has(s, q, L_NOTATION)
  THEN LET n == SName(s, q + 10) IN IF ~n.ok THEN F
       ELSE LET x0 == ReqS(s, n.p) x == IF x0.ok THEN ExtID(s, x0.p, TRUE) ELSE F c == IF x.ok THEN Close(s, x.p, <<>>) ELSE F IN
            IF c.ok THEN Subset(D, s, c.p) ELSE F
  ELSE IF Has(s, q, L_ATTLIST)
  THEN LET n == SName(s, q + 9) IN IF ~n.ok THEN F
       ELSE LET a == AttDefs(D, s, n.p, n.v, <<>>) IN IF a.ok THEN Subset([D EXCEPT !.atts = @ \o a.v], s, a.p) ELSE a
  ELSE F
D0(sd) == [sa |-> TRUE, ents |-> <<>>, atts |-> <<>>]
\* v = D
Doctype(s, p, sd) ==
  LET n == SName(s, p + 9) IN IF ~n.ok THEN F
  ELSE LET q == SkipS(s, n.p)
           x == IF q > n.p /\ At(s, q) \notin {91, 62} THEN ExtID(s, q, FALSE) ELSE G(n.p, <<>>)
       IN IF ~x.ok THEN F
  ELSE LET D == [D0(sd) EXCEPT !.sa = (x.p = n.p \/ sd)]
           b == SkipS(s, x.p)
           i == IF At(s, b) = 91 THEN Subset(D, s, b + 1) ELSE G(b, D)
       IN IF ~i.ok THEN i ELSE Close(s, i.p, i.v)

---------------------------------------------------------------- (* content *)
\* events: [k, n, a, t]: "s" start with name and set of <<name, value>>, "t" text, "e" end
Start(n, a) == [k |-> "s", n |-> n, a |-> a, t |-> <<>>]
End == [k |-> "e", n |-> <<>>, a |-> {}, t |-> <<>>]
AddText(ev, t) ==
  IF t = <<>> THEN ev
  ELSE IF ev # <<>> /\ ev[Len(ev)].k = "t" THEN [ev EXCEPT ![Len(ev)].t = @ \o t]
  ELSE Append(ev, [k |-> "t", n |-> <<>>, a |-> {}, t |-> t])
RECURSIVE AddEvs(_, _)
AddEvs(ev, x) == IF x = <<>> THEN ev ELSE AddEvs(IF x[1].k = "t" THEN AddText(ev, x[1].t) ELSE Append(ev, x[1]), Tail(x))

RECURSIVE Attrs(_, _, _, _)
\* v = sequence of <<name, value>>; p at ">" or "/"
Attrs(D, s, p, a) ==
  LET q == SkipS(s, p) IN
  IF At(s, q) \in {62, 47} THEN G(q, a)
  ELSE LET n == SName(s, p) IN IF ~n.ok THEN F
  ELSE LET e == Eq(s, n.p) IN IF ~e.ok THEN F
  ELSE LET v == QAttVal(D, s, e.p) IN IF ~v.ok THEN v
  ELSE IF \E i \in 1..Len(a) : a[i][1] = n.v THEN F
  ELSE Attrs(D, s, v.p, Append(a, <<n.v, v.v>>))
Declared(D, el, n) == LET A == {i \in 1..Len(D.atts) : D.atts[i].n = <<el, n>>} IN IF A = {} THEN {} ELSE {D.atts[Min(A)]}
FinalAttrs(D, el, a) ==
  {<<a[i][1], IF \E d \in Declared(D, el, a[i][1]) : ~d.cdata THEN Collapse(a[i][2], <<>>) ELSE a[i][2]>> : i \in 1..Len(a)}
  \cup {<<D.atts[i].n[2], D.atts[i].d[1]>> : i \in {j \in 1..Len(D.atts) :
          D.atts[j].n[1] = el /\ D.atts[j] \in Declared(D, el, D.atts[j].n[2]) /\ D.atts[j].d # <<>>
          /\ \A m \in 1..Len(a) : a[m][1] # D.atts[j].n[2]}}
RECURSIVE Element(_, _, _, _), Content(_, _, _, _, _)
\* at "<"; v = events
Element(D, s, p, stk) ==
  LET q == NameEnd(s, p + 1)  n == Sub(s, p + 1, q) IN
  IF q = p + 1 THEN F
  ELSE LET a == Attrs(D, s, q, <<>>) IN IF ~a.ok THEN a
  ELSE LET st == Start(n, FinalAttrs(D, n, a.v)) IN
  IF s[a.p] = 47 THEN (IF At(s, a.p + 1) = 62 THEN G(a.p + 2, <<st, End>>) ELSE F)
  ELSE LET c == Content(D, s, a.p + 1, stk, <<>>) IN IF ~c.ok THEN c
  ELSE IF ~Has(s, c.p, L_ETAGO) \/ ~Has(s, c.p + 2, n) \/ NameChar(At(s, c.p + 2 + Len(n))) THEN F
  ELSE LET e == Close(s, c.p + 2 + Len(n), <<>>) IN IF e.ok THEN G(e.p, <<st>> \o c.v \o <<End>>) ELSE F
\* content up to "</" or the end of the text
Content(D, s, p, stk, ev) ==
  IF p > Len(s) \/ Has(s, p, L_ETAGO) THEN G(p, ev)
  ELSE IF s[p] = 38
  THEN IF At(s, p + 1) = 35 THEN LET r == CharRef(s, p) IN IF r.ok THEN Content(D, s, r.p, stk, AddText(ev, r.v)) ELSE F
       ELSE LET r == EntRef(s, p) IN IF ~r.ok THEN F
       ELSE IF Predef(r.v) # 0 THEN Content(D, s, r.p, stk, AddText(ev, <<Predef(r.v)>>))
       ELSE LET d == Lookup(D.ents, r.v) IN
         CASE d.k = "int" -> IF r.v \in stk THEN F
                ELSE LET x == Content(D, d.v, 1, stk \cup {r.v}, <<>>) IN
                     IF ~x.ok THEN x ELSE IF x.p <= Len(d.v) THEN F ELSE Content(D, s, r.p, stk, AddEvs(ev, x.v))
           [] d.k = "unp" -> F
           [] d.k = "none" -> IF D.sa THEN F ELSE U
           [] OTHER -> U
  ELSE IF s[p] = 60
  THEN IF Has(s, p, L_CMT) THEN LET r == Comment(s, p) IN IF r.ok THEN Content(D, s, r.p, stk, ev) ELSE F
       ELSE IF Has(s, p, L_CD) THEN LET e == Find(s, p + 9, L_CDEND) IN
            IF e = 0 \/ ~Chars(Sub(s, p + 9, e)) THEN F ELSE Content(D, s, e + 3, stk, AddText(ev, Sub(s, p + 9, e)))
       ELSE IF Has(s, p, L_PI) THEN LET r == PIx(s, p) IN IF r.ok THEN Content(D, s, r.p, stk, ev) ELSE F
       ELSE LET r == Element(D, s, p, stk) IN IF r.ok THEN Content(D, s, r.p, stk, AddEvs(ev, r.v)) ELSE r
  ELSE LET e == First(s, p, LAMBDA c : c = 38 \/ c = 60)  t == Sub(s, p, e) IN
       IF ~Chars(t) \/ Find(t, 1, L_CDEND) # 0 THEN F ELSE Content(D, s, e, stk, AddText(ev, t))

--------------------------------------------------------------- (* document *)
Parse(src) ==
  LET s == Norm(src, 1, <<>>)  x == XMLDecl(s) IN IF ~x.ok THEN x
  ELSE LET m == Misc(s, x.p) IN IF ~m.ok THEN m
  ELSE LET dt == IF Has(s, m.p, L_DOCTYPE) THEN Doctype(s, m.p, x.v = <<1>>) ELSE G(m.p, D0(FALSE)) IN IF ~dt.ok THEN dt
  ELSE LET m2 == Misc(s, dt.p) IN IF ~m2.ok THEN m2
  ELSE IF At(s, m2.p) # 60 THEN F
  ELSE LET e == Element(dt.v, s, m2.p, {}) IN IF ~e.ok THEN e
  ELSE LET z == Misc(s, e.p) IN IF z.ok /\ z.p > Len(s) THEN G(z.p, e.v) ELSE F
=============================================================================
