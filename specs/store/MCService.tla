----------------------------- MODULE MCService -----------------------------
(* Every history of requests to a small service: what Service says of them  *)
(* keeps the store whole, and PUT, POST and DELETE mean what HTTP says.     *)
EXTENDS Service
VARIABLE st
MSc == [n |-> 3, a |-> <<[f |-> 2, t |-> 1, fm |-> "*", tm |-> "?", fn |-> TRUE, tn |-> TRUE],
                         [f |-> 3, t |-> 2, fm |-> "*", tm |-> "1", fn |-> TRUE, tn |-> TRUE]>>]
MSetN == <<"Customers", "Orders", "Lines">>
MProps == <<<<"CID", "Name">>, <<"OID">>, <<"LID">>>>
MNKey == <<1, 1, 1>>
MNavN == <<<<"Orders">>, <<"Customer", "Lines">>, <<"Order">>>>
MTok == <<2, 0, 0>>
MMedia == <<FALSE, FALSE, FALSE>>
MCx == <<"-", "-", "-">>
MCxF == <<{}, {}, {}>>
MNotNull == <<{1}, {1}, {1}>>
K(n) == <<<<1, n>>>>
Keys(s) == IF s = 1 THEN {K(1)} ELSE {K(1), K(2)}
Seg(n, k) == [n |-> n, kp |-> 1, k |-> k]
Set0(n) == [n |-> n, kp |-> 0, k |-> <<>>]
NOQ == [f |-> <<>>, o |-> <<>>, top |-> -1, skip |-> -1]
NoBody == [t |-> "none", v |-> <<>>, b |-> <<>>, to |-> [s |-> 0, k |-> <<>>], str |-> <<>>, title |-> <<>>]
R0(m, segs, opt, nav, body) == [m |-> m, segs |-> segs, opt |-> opt, nav |-> nav, body |-> body, bad |-> 0, acc |-> 0, q |-> NOQ]
None == Set0("")
Key0(k) == [t |-> "key", k |-> k]
Rows(s) == {<<<<1, n>>>> \o x : n \in IF s = 1 THEN {1} ELSE {1, 2}, x \in IF s = 1 THEN {<<<<>>>>, <<<<2, 97>>>>, <<ABS>>, <<<<8>>>>} ELSE {<<>>}}
Binds(s) ==
  CASE s = 1 -> {<<<<>>>>} \cup {<<<<Key0(k)>>>> : k \in Keys(2)}
    [] s = 2 -> {<<<<>>, <<>>>>, <<<<Key0(K(1))>>, <<>>>>, <<<<[t |-> "new", v |-> <<<<1, 1>>, <<>>>>, b |-> <<<<>>>>]>>, <<>>>>,
                 <<<<>>, <<[t |-> "new", v |-> <<<<1, 1>>>>, b |-> <<<<>>>>]>>>>}
    [] s = 3 -> {<<<<>>>>} \cup {<<<<Key0(k)>>>> : k \in Keys(2)}
Ents(s) == {[NoBody EXCEPT !.t = "ent", !.v = v, !.b = b] : v \in Rows(s), b \in Binds(s)}
Reqs ==
  UNION {{R0("POST", <<Set0(SetN[s])>>, "", None, b) : b \in Ents(s)}
         \cup {R0("PUT", <<Seg(SetN[s], k)>>, "", None, b) : k \in Keys(s), b \in {x \in Ents(s) : \A i \in 1..Len(x.b) : \A j \in 1..Len(x.b[i]) : TgtM(Sc, NavSeq(Sc, s)[i]) # "*" /\ x.b[i][j].t = "key"}}
         \cup {R0("DELETE", <<Seg(SetN[s], k)>>, "", None, NoBody) : k \in Keys(s)} : s \in 1..3}
  \cup {R0("POST", <<Seg("Customers", K(1)), Set0("Orders")>>, "", None, b) : b \in Ents(2)}
  \cup {R0("PUT", <<Seg("Customers", K(1)), Set0("Name")>>, "", None, [NoBody EXCEPT !.t = "prop", !.v = v]) : v \in {<<>>, <<2, 97>>, <<8>>}}
  \cup {R0("DELETE", <<Seg("Customers", K(1)), Set0("Name")>>, "", None, NoBody)}
  \cup {R0(m, <<Seg("Orders", k)>>, "links", Set0("Customer"), [NoBody EXCEPT !.to = [s |-> t, k |-> K(1)]]) : m \in {"PUT", "POST", "DELETE"}, k \in Keys(2), t \in {1, 2}}
  \cup {R0("POST", <<Seg("Customers", K(1))>>, "links", Set0("Orders"), [NoBody EXCEPT !.to = [s |-> 2, k |-> k]]) : k \in Keys(2)}
  \cup {R0("DELETE", <<Seg("Customers", K(1))>>, "links", Seg("Orders", k), NoBody) : k \in Keys(2)}
NoRow == CHOOSE f \in [{} -> {}] : TRUE
\* what success of request q with state s2 and new key k means
Meaning(q, k, s2) ==
  /\ q.m = "POST" /\ q.opt = "" =>
       LET s == Resolve(s2, q.segs).s r == Resolve(s2, <<Seg(SetN[s], k)>>) IN r.t = "ent" /\ ~Has(st, s, k)
  /\ q.m = "PUT" => LET w == Write(s2, q) IN 204 \in w.codes /\ s2 \in w.sts          \* idempotent
  /\ q.m = "DELETE" /\ q.opt = "" /\ Len(q.segs) = 1 => Resolve(s2, q.segs).t = "404"
  /\ q.m = "DELETE" /\ q.opt = "links" => Write(s2, q).codes = {404}
Init == st = [e |-> <<NoRow, NoRow, NoRow>>, l |-> <<{}, {}>>, m |-> NoRow]
Next == \E q \in Reqs : LET w == Write(st, q) IN
          /\ Assert((w.sts = {}) <=> (w.codes \subseteq 400..499), <<"codes", q, st>>)
          /\ \E s2 \in w.sts : Assert(Meaning(q, w.key, s2), <<"meaning", q, st, s2>>) /\ st' = s2
RowsRight == \A s \in 1..Sc.n : \A k \in DOMAIN st.e[s] : KeyOfRow(s, st.e[s][k]) = k /\ Len(st.e[s][k]) = Len(Props[s]) /\ \A i \in 1..Len(Props[s]) : st.e[s][k][i] \notin {ABS, <<8>>}
Inv == Integrity(Sc, AsStore(st, {})) /\ RowsRight
=============================================================================
