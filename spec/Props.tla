---- MODULE Props ----
(* What a mesh says about its cells: connectivity, its flattened form, centers and dimension. *)
EXTENDS Faces
(* dimension of every VTK cell type *)
TypeDim(t) ==
  CASE t \in {51, 60, 68, 75} -> 1 [] t \in {52, 53, 54, 61, 62, 63, 69, 70, 76, 77} -> 2
    [] t \in {55, 56} \union (64..67) \union (71..74) \union (78..81) -> 3
    [] t = EMPTY -> -1 [] OTHER -> CellDim(t)
(* flattened connectivity: <<n, id1 .. idn>> per cell, <<n, #faces, m1, ids .., m2, ids ..>> for polyhedra; ids 0-based *)
FlatFaces(fs) == FlattenSeq([i \in DOMAIN fs |-> <<Len(fs[i])>> \o [k \in DOMAIN fs[i] |-> fs[i][k] - 1]])
FlatCell(c) == IF c.type = PHED THEN LET b == <<Len(c.faces)>> \o FlatFaces(c.faces) IN <<Len(b)>> \o b
               ELSE <<Len(c.ids)>> \o [k \in DOMAIN c.ids |-> c.ids[k] - 1]
Flatten(cells) == FlattenSeq([i \in DOMAIN cells |-> FlatCell(cells[i])])
(* and back, given the types *)
RECURSIVE TakeFaces(_, _, _)
TakeFaces(s, i, n) == IF n = 0 THEN <<>> ELSE << [k \in 1..s[i] |-> s[i + k] + 1] >> \o TakeFaces(s, i + s[i] + 1, n - 1)
RECURSIVE Unflatten(_, _)
Unflatten(s, types) ==
  IF types = <<>> THEN <<>>
  ELSE LET n == s[1]  c == IF Head(types) = PHED THEN [type |-> PHED, faces |-> TakeFaces(s, 3, s[2])]
                           ELSE [type |-> Head(types), ids |-> [k \in 1..n |-> s[k + 1] + 1]]
       IN <<c>> \o Unflatten(SubSeq(s, n + 2, Len(s)), Tail(types))
Core(c) == IF c.type = PHED THEN [type |-> PHED, faces |-> c.faces] ELSE [type |-> c.type, ids |-> c.ids]
(* corners of a cell *)
Corners(c) == IF c.type = PHED THEN UNION {SetOf(c.faces[i]) : i \in DOMAIN c.faces} ELSE SetOf(c.ids)
SumC(S, pts, k) == FoldSet(LAMBDA v, a : a + pts[v][k], 0, S)
InBox(x, S, pts) == \A k \in 1..3 : Min({pts[v][k] : v \in S}) - 1 <= x[k] /\ x[k] <= Max({pts[v][k] : v \in S}) + 1
BoxMid(x, S, pts) == \A k \in 1..3 : Near(2 * x[k], Min({pts[v][k] : v \in S}) + Max({pts[v][k] : v \in S}), 3)
MeanOf(x, S, pts) == \A k \in 1..3 : LET n == Cardinality(S) IN Near(n * x[k], SumC(S, pts, k), 2 * n)
(* centroid by signed tetrahedra from a corner, in lattice units *)
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Centroid(x, c, pts) ==
  LET o == pts[CHOOSE v \in Corners(c) : TRUE]
      tris == FlattenSeq([i \in DOMAIN c.faces |-> [j \in 1..Len(c.faces[i]) - 2 |-> <<c.faces[i][1], c.faces[i][j + 1], c.faces[i][j + 2]>>]])
      q(v) == Small(SubP(pts[v], o))
      vol == [t \in DOMAIN tris |-> Dot(q(tris[t][1]), Cross3(q(tris[t][2]), q(tris[t][3])))]
      V == Sum(vol)
      num(k) == Sum([t \in DOMAIN tris |-> vol[t] * (q(tris[t][1])[k] + q(tris[t][2])[k] + q(tris[t][3])[k])])
  IN V # 0 => \A k \in 1..3 : Near(x[k] - o[k], (IF V > 0 THEN 1 ELSE -1) * RoundDiv(ULatt * num(k), 4 * Abs(V)), 3)
MeanTypes == {VERTEX, LINE, TRI, PIXEL, QUAD, TET, VOXEL, HEX, WEDGE}
CenterOk(x, c, pts, how) ==
  CASE c.type = EMPTY -> \A k \in 1..3 : x[k] = NaN
    [] c.type = PHED /\ how = "geometric" -> MeanOf(x, Corners(c), pts)
    [] c.type = PHED /\ how = "tetra" -> Centroid(x, c, pts)
    [] c.type = PHED /\ how = "box" -> BoxMid(x, Corners(c), pts)
    [] c.type \in MeanTypes -> MeanOf(x, Corners(c), pts)
    [] OTHER -> InBox(x, Corners(c), pts)
====
