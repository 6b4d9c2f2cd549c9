---- MODULE MC_Boundary ----
(* Every region made of squares of a W x H board: its boundary is a single loop exactly when it is a disc. *)
EXTENDS Boundary, Json
CONSTANTS W, H
VARIABLES reg
Sq == (1..W) \X (1..H)
Pad == (0..W + 1) \X (0..H + 1)
Id(s) == s[1] + (W + 2) * s[2]
Init == reg = {}
Next == \E s \in Sq : (\A r \in reg : Id(r) < Id(s)) /\ reg' = reg \union {s}
Ed(s) == LET x == s[1]  y == s[2] IN {{<<x, y>>, <<x + 1, y>>}, {<<x + 1, y>>, <<x + 1, y + 1>>}, {<<x + 1, y + 1>>, <<x, y + 1>>}, {<<x, y + 1>>, <<x, y>>}}
Bnd == LET all == UNION {Ed(s) : s \in reg} IN {x \in all : Cardinality({s \in reg : x \in Ed(s)}) = 1}
RECURSIVE Flood(_, _)
Flood(S, seen) == LET n == seen \union {s \in S : \E t \in seen : Abs(s[1] - t[1]) + Abs(s[2] - t[2]) = 1} IN IF n = seen THEN seen ELSE Flood(S, n)
Connected4(S) == S # {} /\ Flood(S, {CHOOSE s \in S : TRUE}) = S
Disc == Connected4(reg) /\ Connected4(Pad \ reg)
Even == \A v \in UNION Bnd : Degree(Bnd, v) \in {2, 4}
DiscIffLoop == reg # {} => (Disc <=> SingleLoop(Bnd))
Emit == reg # {} => PrintT("B|" \o ToJson([w |-> W, h |-> H, reg |-> reg]))
====
