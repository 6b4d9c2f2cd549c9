---- MODULE Boundary ----
(* Boundary of surface meshes and of sets of their cells.  Points are identified by their coordinates. *)
EXTENDS Select
Canon(m) == LET first == [v \in DOMAIN m.pts |-> CHOOSE u \in DOMAIN m.pts : m.pts[u] = m.pts[v] /\ \A w \in 1..u - 1 : m.pts[w] # m.pts[v]] IN
  [m EXCEPT !.cells = [c \in DOMAIN m.cells |-> [m.cells[c] EXCEPT !.ids = [k \in DOMAIN m.cells[c].ids |-> first[m.cells[c].ids[k]]]]]]
(* edges (pairs of coordinates) owned by exactly one cell of S (0-based ids) *)
EdgeOf(m, f) == {m.pts[f[1]], m.pts[f[2]]}
CellEdges(m, c) == LET F == FacesOf(m.cells[c + 1], 2) IN {EdgeOf(m, F[i]) : i \in DOMAIN F}
BoundaryOf(m, S) == LET own == [c \in S |-> CellEdges(m, c)]  all == UNION {own[c] : c \in S} IN {x \in all : Cardinality({c \in S : x \in own[c]}) = 1}
Visible2(m) == {c \in Cells0(m) : ~m.hid[c + 1] /\ TypeDim(m.cells[c + 1].type) = 2}
Degree(E, v) == Cardinality({x \in E : v \in x})
RECURSIVE Grow(_, _)
Grow(E, seen) == LET more == {x \in E : x \cap seen # {}} IN LET s == seen \union UNION more IN IF s = seen THEN seen ELSE Grow(E, s)
(* E is one closed loop that never meets itself *)
SingleLoop(E) == /\ E # {} /\ LET V == UNION E IN /\ \A v \in V : Degree(E, v) = 2
                                                   /\ LET x == CHOOSE x \in E : TRUE IN Grow(E, x) = V
(* loops as sequences of points, first repeated at the end *)
LoopEdges(p) == {{p[i], p[i + 1]} : i \in 1..Len(p) - 1}
Closed(p) == Len(p) > 3 /\ p[1] = p[Len(p)]
Simple(p) == \A i, j \in 1..Len(p) - 1 : i # j => p[i] # p[j]
(* planar geometry in lattice units, a and b the directions of the plane *)
Lat(p, a, b) == <<RoundDiv(p[a], ULatt), RoundDiv(p[b], ULatt)>>
Area2(p, a, b) == Abs(Sum([i \in 1..Len(p) - 1 |-> LET u == Lat(p[i], a, b)  w == Lat(p[i + 1], a, b)  o == Lat(p[1], a, b) IN (u[1] - o[1]) * (w[2] - o[2]) - (w[1] - o[1]) * (u[2] - o[2])]))
(* midpoint of the first edge of a loop, times two *)
Mid2(p, a, b) == LET u == Lat(p[1], a, b)  w == Lat(p[2], a, b) IN <<u[1] + w[1], u[2] + w[2]>>
(* crossing number of the ray from m2 / 2 in direction (1, tiny): m2 not on the loop *)
Crosses(m2, u, w) == LET uu == <<2 * u[1], 2 * u[2]>>  ww == <<2 * w[1], 2 * w[2]>> IN
   /\ (uu[2] > m2[2]) # (ww[2] > m2[2])
   /\ LET d == (ww[1] - uu[1]) * (m2[2] - uu[2]) - (m2[1] - uu[1]) * (ww[2] - uu[2]) IN IF ww[2] > uu[2] THEN d > 0 ELSE d < 0
InsideLoop(m2, p, a, b) == Cardinality({i \in 1..Len(p) - 1 : Crosses(m2, Lat(p[i], a, b), Lat(p[i + 1], a, b))}) % 2 = 1
Enclosing(L, j, a, b) == {i \in DOMAIN L : i # j /\ InsideLoop(Mid2(L[j], a, b), L[i], a, b)}
(* loop -> its shell (0 if it is itself a shell) *)
ShellOf(L, j, a, b) == LET E == Enclosing(L, j, a, b) IN
   IF Cardinality(E) % 2 = 0 THEN 0 ELSE CHOOSE i \in E : Cardinality(Enclosing(L, i, a, b)) = Cardinality(E) - 1
====
