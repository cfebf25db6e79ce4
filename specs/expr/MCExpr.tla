------------------------------ MODULE MCExpr --------------------------------
(* Every expression tree of bounded shape, printed with the fewest brackets: *)
(* parsing must give the tree back (consistency of the grammar), and the     *)
(* token sequences are emitted to be replayed on the real parser.            *)
EXTENDS Expr, Json
CONSTANTS Depth, Leaves, Bins, Uns
T0 == {<<"prop", s>> : s \in Leaves}
RECURSIVE Trees(_)
Trees(d) == IF d = 0 THEN T0
            ELSE LET s == Trees(d - 1) IN T0 \cup {<<"un", u, x>> : u \in Uns, x \in s} \cup {<<"bin", b, x, y>> : b \in Bins, x \in s, y \in s}
VARIABLE t
Init == t \in Trees(Depth)
Next == FALSE /\ UNCHANGED t
Inv == Parse(Show(t)) = Good(t, Len(Show(t)) + 1)
Emit == PrintT(ToJson([ts |-> Show(t)]))
=============================================================================
