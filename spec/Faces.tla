---- MODULE Faces ----
(* Cells, their faces (edges for cells of dimension 1 and 2) and who owns them.  A mesh is [pts, cells, hid]; a cell is
   [type, ids, faces] (faces only for polyhedra), ids 1-based.                                                        *)
EXTENDS Base
EMPTY == 0  VERTEX == 1  PVERTEX == 2  LINE == 3  PLINE == 4  TRI == 5  POLY == 7  PIXEL == 8  QUAD == 9  TET == 10  VOXEL == 11  HEX == 12  WEDGE == 13  PYR == 14  PHED == 42
CellDim(t) == CASE t = EMPTY -> -1 [] t \in {VERTEX, PVERTEX} -> 0 [] t \in {LINE, PLINE, 21, 35} -> 1
                [] t \in {TRI, 6, POLY, PIXEL, QUAD, 22, 23, 28, 30, 34, 36} -> 2
                [] t \in {TET, VOXEL, HEX, WEDGE, PYR, 15, 16, 24, 25, 26, 27, 29, 31, 32, 33, 37, 41, PHED} -> 3
MeshDim(m) == Max({CellDim(m.cells[c].type) : c \in DOMAIN m.cells})
LocalFaces(t) ==
  CASE t = TET -> << <<2, 3, 4>>, <<1, 4, 3>>, <<1, 2, 4>>, <<1, 3, 2>> >>
    [] t = PYR -> << <<1, 4, 3, 2>>, <<1, 2, 5>>, <<2, 3, 5>>, <<3, 4, 5>>, <<4, 1, 5>> >>
    [] t = WEDGE -> << <<1, 2, 3>>, <<4, 5, 6>>, <<1, 2, 5, 4>>, <<2, 3, 6, 5>>, <<3, 1, 4, 6>> >>
    [] t = HEX -> << <<1, 2, 3, 4>>, <<5, 6, 7, 8>>, <<1, 2, 6, 5>>, <<2, 3, 7, 6>>, <<3, 4, 8, 7>>, <<4, 1, 5, 8>> >>
    [] t = VOXEL -> << <<1, 2, 4, 3>>, <<5, 6, 8, 7>>, <<1, 2, 6, 5>>, <<2, 4, 8, 6>>, <<4, 3, 7, 8>>, <<3, 1, 5, 7>> >>
Pick(ids, f) == [i \in DOMAIN f |-> ids[f[i]]]
(* faces of a cell in a mesh of dimension d, as sequences of point ids *)
FacesOf(c, d) ==
  CASE c.type = EMPTY -> <<>>
    [] d = 3 /\ c.type = PHED -> c.faces
    [] d = 3 -> [i \in DOMAIN LocalFaces(c.type) |-> Pick(c.ids, LocalFaces(c.type)[i])]
    [] d < 3 /\ c.type \in {LINE, PLINE} -> [i \in 1..Len(c.ids) - 1 |-> <<c.ids[i], c.ids[i + 1]>>]
    [] d < 3 /\ c.type = PIXEL -> << <<c.ids[1], c.ids[2]>>, <<c.ids[2], c.ids[4]>>, <<c.ids[4], c.ids[3]>>, <<c.ids[3], c.ids[1]>> >>
    [] d < 3 -> [i \in DOMAIN c.ids |-> <<c.ids[i], c.ids[(i % Len(c.ids)) + 1]>>]
Cross3(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
ULatt == 1250
Small(p) == [k \in 1..3 |-> RoundDiv(p[k], ULatt)]
(* zero length or zero area (all corners on one line), exact on the lattice *)
ZeroSize(f, pts) == LET q == [i \in DOMAIN f |-> Small(SubP(pts[f[i]], pts[f[1]]))] IN
   IF Len(f) = 2 THEN q[2] = <<0, 0, 0>> ELSE \A i, j \in DOMAIN q : i < j => Cross3(q[i], q[j]) = <<0, 0, 0>>
SetOf(f) == {f[i] : i \in DOMAIN f}
ZeroSizeSet(x, m, d) == LET F == FacesOf(m.cells[x[2] + 1], d) IN \E i \in DOMAIN F : SetOf(F[i]) = x[1] /\ ZeroSize(F[i], m.pts)
(* all faces: set of <<point set, owner>>, owners 0-based *)
Owns(m, visible(_)) == LET d == MeshDim(m) IN UNION {{<<SetOf(FacesOf(m.cells[c], d)[i]), c - 1>> : i \in DOMAIN FacesOf(m.cells[c], d)} : c \in {x \in DOMAIN m.cells : visible(x)}}
FaceTable(m, remove) ==
  LET d == MeshDim(m)
      all == Owns(m, LAMBDA c : ~(remove /\ m.hid[c]))
      keep == IF remove THEN {x \in all : ~ZeroSizeSet(x, m, d)} ELSE all
  IN [s \in {x[1] : x \in keep} |-> {x[2] : x \in {y \in keep : y[1] = s}}]
====
