---- MODULE Merge ----
(* The mesh merger.  State: the added meshes.  A mesh is [pts (scale 10^6), cells |-> seq of [ids, type], names |-> group name
   per cell, "" where the mesh gives none], added with a group ("" = none).                                               *)
EXTENDS Groups
Fine == 1000000
Lat == 125000                                            \* lattice of the generated cases, scale Fine
Snap(p) == [c \in 1..3 |-> RoundDiv(p[c], Lat)]
CloseP(p, q, tol) == \A c \in 1..3 : Abs(p[c] - q[c]) <= tol
MergedGroup(name, grp, ignore, dflt) == IF name # "" /\ ~In(name, ignore) THEN name ELSE IF grp # "" THEN grp ELSE dflt
(* a cell as seen from outside: type, corners in order, group, hidden or not, value of its data array (-1 without) *)
Cell(pts, c, g, h, d) == <<c.type, [i \in DOMAIN c.ids |-> Snap(pts[c.ids[i]])], g, h, d>>
(* a data array is kept if all meshes have it *)
Common(items) == \A i \in DOMAIN items : items[i].cd # <<>>
CellsOf(items, ignore, dflt) == FlattenSeq([i \in DOMAIN items |->
    [k \in DOMAIN items[i].cells |-> Cell(items[i].pts, items[i].cells[k], MergedGroup(items[i].names[k], items[i].grp, ignore, dflt),
                                          items[i].hid[k], IF Common(items) THEN items[i].cd[k] ELSE -1)]])
Bag(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
UsedPts(m) == {m.pts[v] : v \in UNION {{m.cells[k].ids[i] : i \in DOMAIN m.cells[k].ids} : k \in DOMAIN m.cells}}
AllPts(items) == UNION {UsedPts(items[i]) : i \in DOMAIN items}
(* closeness is transitive on the generated cases, so that clusters are the balls around their members *)
Clusters(P, tol) == {{q \in P : CloseP(p, q, tol)} : p \in P}
====
