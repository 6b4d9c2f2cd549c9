---- MODULE Volume ----
(* The volume between two matching surfaces.  A surface is
     [kind |-> "struct", dims |-> <<nx, ny, nz>>, pts, ghost, pd, cd]
     [kind |-> "unstr",  cells |-> sequences of point ids, types |-> VTK types, pts, ghost, pd, cd]           *)
EXTENDS Planar
TRI == 5  POLY == 7  PIXEL == 8  QUAD == 9  HEX == 12  WEDGE == 13  POLYHED == 42
Extruded(t) == CASE t = TRI -> WEDGE [] t = QUAD -> HEX [] t = PIXEL -> HEX [] t = POLY -> POLYHED
Supported == {TRI, POLY, PIXEL, QUAD}
NDim(d) == Cardinality({c \in 1..3 : d[c] > 1})
Axis(d) == CHOOSE c \in 1..3 : d[c] = 1 /\ \A x \in 1..c - 1 : d[x] # 1     \* the direction to extrude
CDims(d) == [c \in 1..3 |-> Max2(1, d[c] - 1)]
Unflat(d, k) == << ((k - 1) % d[1]) + 1, (((k - 1) \div d[1]) % d[2]) + 1, (k - 1) \div (d[1] * d[2]) + 1 >>
Flat3(d, x) == x[1] + d[1] * ((x[2] - 1) + d[2] * (x[3] - 1))
Size(d) == d[1] * d[2] * d[3]
(* corners of structured cell x (a triple) as point ids *)
CellCorners(d, x) == {Flat3(d, y) : y \in {z \in (x[1]..x[1] + 1) \X (x[2]..x[2] + 1) \X (x[3]..x[3] + 1) : \A c \in 1..3 : z[c] <= d[c]}}

VolumeRefused(a, b, res, m) ==
  \/ Refused(res, m) \/ a.kind # b.kind \/ Len(a.pts) # Len(b.pts)
  \/ a.kind = "struct" /\ (a.dims # b.dims \/ NDim(a.dims) # 2)
  \/ a.kind = "unstr" /\ (a.types # b.types \/ \E i \in DOMAIN a.types : a.types[i] \notin Supported)
  \/ a.kind = "other"

(* column and level of the k-th point (cell) when a grid of shape d gets n levels along ax *)
Lift(d, ax, n, k) == LET e == [d EXCEPT ![ax] = n]  x == Unflat(e, k) IN [src |-> Flat3(d, [x EXCEPT ![ax] = 1]), lev |-> x[ax]]
PtAt(a, b, p, s, j) == LerpP(a.pts[s], b.pts[s], p[j])
StructVolume(a, b, res, m) ==
  LET p == Perc(res, m)  q == Len(p)  ax == Axis(a.dims)  d == [a.dims EXCEPT ![ax] = q]
      cd == CDims(a.dims)  nc == Size(cd) * (q - 1)
      ofp(k) == Lift(a.dims, ax, q, k)  ofc(k) == Lift(cd, ax, q - 1, k) IN
  [dims |-> d,
   pts  |-> [k \in 1..Size(d) |-> PtAt(a, b, p, ofp(k).src, ofp(k).lev)],
   psrc |-> [k \in 1..Size(d) |-> ofp(k).src],
   csrc |-> [k \in 1..nc |-> ofc(k).src],
   clev |-> [k \in 1..nc |-> ofc(k).lev],
   flat |-> [k \in 1..nc |-> LET c == ofc(k)  v == CellCorners(a.dims, Unflat(cd, c.src)) IN
              p[c.lev] = p[c.lev + 1] \/ \A i \in v : a.pts[i] = b.pts[i]],
   types |-> [k \in 1..nc |-> HEX]]
(* connectivity of the cell above surface cell c in interval j: bottom then top corners *)
Corner(a, c) == IF a.types[c] = PIXEL THEN <<a.cells[c][1], a.cells[c][2], a.cells[c][4], a.cells[c][3]>> ELSE a.cells[c]
Up(ids, np, j) == [i \in DOMAIN ids |-> ids[i] + np * (j - 1)]
UnstrVolume(a, b, res, m) ==
  LET p == Perc(res, m)  q == Len(p)  np == Len(a.pts)  nb == Len(a.cells)  nc == nb * (q - 1)
      src(k) == ((k - 1) % nb) + 1  lev(k) == (k - 1) \div nb + 1 IN
  [pts  |-> [k \in 1..np * q |-> PtAt(a, b, p, ((k - 1) % np) + 1, (k - 1) \div np + 1)],
   psrc |-> [k \in 1..np * q |-> ((k - 1) % np) + 1],
   csrc |-> [k \in 1..nc |-> src(k)],
   clev |-> [k \in 1..nc |-> lev(k)],
   bot  |-> [k \in 1..nc |-> Up(Corner(a, src(k)), np, lev(k))],
   top  |-> [k \in 1..nc |-> Up(Corner(a, src(k)), np, lev(k) + 1)],
   flat |-> [k \in 1..nc |-> p[lev(k)] = p[lev(k) + 1] \/ \A i \in DOMAIN a.cells[src(k)] : a.pts[a.cells[src(k)][i]] = b.pts[a.cells[src(k)][i]]],
   types |-> [k \in 1..nc |-> Extruded(a.types[src(k)])]]

(* closed polyhedra: faces as vertex sequences *)
DirEdges(f) == {<<f[i], f[(i % Len(f)) + 1]>> : i \in DOMAIN f}
SameCycle(f, g) == Len(f) = Len(g) /\ (\E k \in 0..Len(f) - 1 : Rot(g, k) = f)
SameCycleAny(f, g) == SameCycle(f, g) \/ SameCycle(f, Rev(g))
PrismFaces(bot, top) == <<bot, top>> \o [i \in DOMAIN bot |-> LET k == (i % Len(bot)) + 1 IN <<bot[i], bot[k], top[k], top[i]>>]
IsPrism(F, bot, top) == LET G == PrismFaces(bot, top) IN
   Len(F) = Len(G) /\ (\A g \in DOMAIN G : \E f \in DOMAIN F : SameCycleAny(F[f], G[g]))
Consistent(F) == LET E == [f \in DOMAIN F |-> DirEdges(F[f])] IN
   \A f \in DOMAIN F : \A x \in E[f] : /\ \E g \in DOMAIN F : g # f /\ <<x[2], x[1]>> \in E[g]
                                       /\ \A g \in DOMAIN F : g # f => x \notin E[g]
(* six times the signed volume with vertices at integer positions w *)
Det(x, y, z) == x[1] * (y[2] * z[3] - y[3] * z[2]) - x[2] * (y[1] * z[3] - y[3] * z[1]) + x[3] * (y[1] * z[2] - y[2] * z[1])
FaceVol(f, w, o) == FoldLeft(LAMBDA s, i : s + Det(SubP(w[f[1]], o), SubP(w[f[i]], o), SubP(w[f[i + 1]], o)), 0, [i \in 1..Len(f) - 2 |-> i + 1])
SignedVol(F, w, o) == FoldLeft(LAMBDA s, f : s + FaceVol(f, w, o), 0, F)
====
