---- MODULE Tiling ----
(* Regions of the plane bounded by a shell and holes, and their tilings by cells.
   Points are <<x, y>>; loops are sequences of points, the last one joined to the first one. *)
EXTENDS Picking
Sh2(p) == Sum([i \in DOMAIN p |-> LET a == p[i]  b == p[Nxp(i, Len(p))]  o == p[1] IN (a[1] - o[1]) * (b[2] - o[2]) - (b[1] - o[1]) * (a[2] - o[2])])
(* counter-clockwise version of a loop *)
Ccw(p) == IF Sh2(p) < 0 THEN Rev(p) ELSE p
Segs(p) == {<<p[i], p[Nxp(i, Len(p))]>> : i \in DOMAIN p}
Legs(p) == [i \in DOMAIN p |-> <<p[i], p[Nxp(i, Len(p))]>>]
(* boundary of the region with the region on the left hand side *)
RimOf(shell, holes) == Legs(Ccw(shell)) \o FlattenSeq([i \in DOMAIN holes |-> Legs(Rev(Ccw(holes[i])))])
RegionArea2(shell, holes) == Abs(Sh2(shell)) - Sum([i \in DOMAIN holes |-> Abs(Sh2(holes[i]))])
Len1(s) == Abs(s[2][1] - s[1][1]) + Abs(s[2][2] - s[1][2])
Perimeter(rim) == Sum([i \in DOMAIN rim |-> Len1(rim[i])])
(* p is within t of segment s *)
NearSeg(s, p, t) == /\ Abs(Side(s[1], s[2], p)) <= t * Len1(s)
                    /\ Min2(s[1][1], s[2][1]) - t <= p[1] /\ p[1] <= Max2(s[1][1], s[2][1]) + t
                    /\ Min2(s[1][2], s[2][2]) - t <= p[2] /\ p[2] <= Max2(s[1][2], s[2][2]) + t
Along(s, e) == (s[2][1] - s[1][1]) * (e[2][1] - e[1][1]) + (s[2][2] - s[1][2]) * (e[2][2] - e[1][2]) > 0
OnSeg(s, e, t) == NearSeg(s, e[1], t) /\ NearSeg(s, e[2], t) /\ Along(s, e)
(* the rim is covered: along every segment of the rim the free edges add up to the segment *)
Covered(rim, free, t) == \A i \in DOMAIN rim : LET on == {e \in free : OnSeg(rim[i], e, t)} IN
   /\ Near(FoldSet(LAMBDA e, a : a + e[2][1] - e[1][1], 0, on), rim[i][2][1] - rim[i][1][1], 2 * t)
   /\ Near(FoldSet(LAMBDA e, a : a + e[2][2] - e[1][2], 0, on), rim[i][2][2] - rim[i][1][2], 2 * t)
(* cells: counter-clockwise sequences of points *)
CellsCcw(pts, cells) == [c \in DOMAIN cells |-> Ccw([k \in DOMAIN cells[c] |-> pts[cells[c][k]]])]
Directed(C) == [c \in DOMAIN C |-> Segs(C[c])]
FreeEdges(C) == LET E == UNION {Segs(C[c]) : c \in DOMAIN C} IN {e \in E : <<e[2], e[1]>> \notin E}
(* every directed edge has one cell on its left *)
OneLeft(C) == Cardinality(UNION {Segs(C[c]) : c \in DOMAIN C}) = Sum([c \in DOMAIN C |-> Len(C[c])])
Total2(C) == Sum([c \in DOMAIN C |-> Sh2(C[c])])
(* A conforming tiling of the region: positive cells whose oriented edges cancel but for the rim. *)
TilingFaults(shell, holes, pts, cells, t) ==
  LET C == CellsCcw(pts, cells)  rim == RimOf(shell, holes)  free == FreeEdges(C) IN
  Bad({<<"positive", \A c \in DOMAIN C : Sh2(C[c]) > 0>>,
       <<"edge_shared", OneLeft(C)>>,
       <<"edge_on_rim", \A e \in free : \E i \in DOMAIN rim : OnSeg(rim[i], e, t)>>,
       <<"rim_covered", Covered(rim, free, t)>>,
       <<"area", Near(Total2(C), RegionArea2(shell, holes), 2 * t * Perimeter(rim))>>})
====
