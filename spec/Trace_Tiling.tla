---- MODULE Trace_Tiling ----
(* mesh: a polygon with holes was meshed (or not, celltype "polygon"), coordinates in the plane at 500 per unit. *)
EXTENDS TraceBase, Tiling
(* loops q and p are the same up to the first corner and the direction *)
SameLoop(p, q) == Len(p) = Len(q) /\ \E k \in 0..Len(p) - 1 : \E r \in {Rot(q, k), Rev(Rot(q, k))} : \A i \in DOMAIN p : Near(p[i][1], r[i][1], 1) /\ Near(p[i][2], r[i][2], 1)
Refused(e) == \/ e.kind \notin {"polygon", "quad", "triangle"} \/ (e.kind = "polygon" /\ e.holes # <<>>) \/ (e.kind # "polygon" /\ e.engine \notin {"gmsh", "occ"})
FailMesh(e) ==
  IF Refused(e) THEN Bad({<<"C04.refused", e.exc = "ValueError">>}) ELSE
  IF e.exc # "" THEN {"C04.raised"} ELSE
  Bad({<<"C04.plane", e.flat>>,
       <<"C04.points_used", \A i \in DOMAIN e.pts : \E c \in DOMAIN e.cells : i \in {e.cells[c][k] : k \in DOMAIN e.cells[c]}>>}) \union
  IF e.kind = "polygon"
    THEN Bad({<<"C04.polygon", Len(e.cells) = 1 /\ e.types = <<7>> /\ SameLoop([k \in DOMAIN e.cells[1] |-> e.pts[e.cells[1][k]]], e.shell)>>})
    ELSE Bad({<<"C04.types", \A c \in DOMAIN e.types : IF e.types[c] = 5 THEN Len(e.cells[c]) = 3 ELSE e.types[c] = 9 /\ e.kind = "quad" /\ Len(e.cells[c]) = 4>>,
              <<"C04.corners", \A p \in {e.shell[i] : i \in DOMAIN e.shell} \union UNION {{e.holes[h][i] : i \in DOMAIN e.holes[h]} : h \in DOMAIN e.holes} :
                                  \E i \in DOMAIN e.pts : Near(p[1], e.pts[i][1], 1) /\ Near(p[2], e.pts[i][2], 1)>>,
              <<"C04.size", e.size = 0 \/ \A c \in DOMAIN e.cells : \A i, j \in DOMAIN e.cells[c] :
                                  Abs(e.pts[e.cells[c][i]][1] - e.pts[e.cells[c][j]][1]) <= 3 * e.size /\ Abs(e.pts[e.cells[c][i]][2] - e.pts[e.cells[c][j]][2]) <= 3 * e.size>>})
         \union {"C04." \o x : x \in TilingFaults(e.shell, e.holes, e.pts, e.cells, 3)}
Fail(e, s) == FailMesh(e)
Succ(e, s) == s
Init == l = 1 /\ st = 0
Next == Step(Fail, Succ)
====
