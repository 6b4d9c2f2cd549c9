---- MODULE Stack ----
(* Stacking builders.  State: base mesh (points, lateral cells, groups, data), direction, and the list of items, each with
   its requested elevation at every base point.  Generating places the items by priority and fills the layers.            *)
EXTENDS Subdivide, Groups, Trig
ULat == K \div 8
(* ---------- requested elevations ---------- *)
Lateral(ax) == IF ax = 1 THEN <<2, 3>> ELSE IF ax = 2 THEN <<1, 3>> ELSE <<1, 2>>
SameLat(p, q, ax) == LET u == Lateral(ax) IN p[u[1]] = q[u[1]] /\ p[u[2]] = q[u[2]]
Dist2(p, q, ax) == LET u == Lateral(ax) IN LET a == (p[u[1]] - q[u[1]]) \div ULat  b == (p[u[2]] - q[u[2]]) \div ULat IN a * a + b * b
Nearest(q, data, ax) == LET i == CHOOSE i \in DOMAIN data : \A j \in DOMAIN data : Dist2(q, data[i], ax) <= Dist2(q, data[j], ax) IN data[i][ax]
(* piecewise linear interpolation along coordinate c of sorted break points *)
Interp1(x, br, c, ax) ==
  IF x <= br[1][c] THEN br[1][ax] ELSE IF x >= br[Len(br)][c] THEN br[Len(br)][ax]
  ELSE LET k == CHOOSE k \in 1..Len(br) - 1 : br[k][c] <= x /\ x <= br[k + 1][c] /\ br[k][c] # br[k + 1][c]
           p == RoundDiv(((x - br[k][c]) \div ULat) * PS, (br[k + 1][c] - br[k][c]) \div ULat) IN Lerp(br[k][ax], br[k + 1][ax], p)
Elevation(s, a) ==
  LET ax == s.axis  n == Len(s.pts) IN
  CASE a.k = "const"  -> IF s.items = <<>> THEN [v \in 1..n |-> a.v] ELSE LET z == s.items[Len(s.items)].z IN [v \in DOMAIN z |-> z[v] + IF s.up THEN Abs(a.v) ELSE -Abs(a.v)]
    [] a.k = "vals"   -> a.v
    [] a.k = "affine" -> [v \in 1..n |-> a.c[4] + a.c[1] * s.pts[v][1] + a.c[2] * s.pts[v][2] + a.c[3] * s.pts[v][3]]
    [] a.k = "nodes"  -> [v \in 1..n |-> Nearest(s.pts[v], a.pts, ax)]
    [] a.k = "line"   -> [v \in 1..n |-> Interp1(s.pts[v][a.c], SortSeq(a.pts, LAMBDA p, q : p[a.c] < q[a.c]), a.c, ax)]
    \* rotated point of the horizontal plane: coordinate along the axis, rotation by h half degrees about lateral axis r
    [] a.k = "plane"  -> [v \in 1..n |-> LET o == CHOOSE o \in 1..3 : o # ax /\ o # a.r
                                             d == s.pts[v][o] - a.p[o]
                                             sg == IF (a.r % 3) + 1 = o THEN -1 ELSE 1      \* right-handed, inverse rotation
                                         IN a.p[ax] + sg * Times(d, Sin(a.h))]
AddRefused(a, res, m) == a.k = "bad"

(* ---------- placing the items ---------- *)
Ranked(items) == SortSeq([i \in DOMAIN items |-> i], LAMBDA a, b : items[a].prio > items[b].prio \/ (items[a].prio = items[b].prio /\ a > b))
Gap(items, i, j) == FoldLeft(LAMBDA x, k : x + items[k].th, 0, [k \in 1..j - i |-> i + k])
Linked(items, i, j) == \A k \in i + 1..j : ~items[k].tr
Place(items, up, acc, i) ==
  LET s == IF up THEN 1 ELSE -1
      below == {j \in 1..i - 1 : acc[j] # <<>> /\ Linked(items, j, i)}
      above == {j \in i + 1..Len(items) : acc[j] # <<>> /\ Linked(items, i, j)} IN
  [v \in DOMAIN items[i].z |->
     LET z == s * items[i].z[v]
         up1 == {s * acc[j][v] - Gap(items, i, j) : j \in above}
         lo1 == {s * acc[j][v] + Gap(items, j, i) : j \in below}
         z1 == IF up1 = {} THEN z ELSE Min2(z, Min(up1))
         z2 == IF lo1 = {} THEN z1 ELSE Max2(z1, Max(lo1)) IN s * z2]
Cut(items, up) == FoldLeft(LAMBDA acc, i : [acc EXCEPT ![i] = Place(items, up, acc, i)], [i \in DOMAIN items |-> <<>>], Ranked(items))

(* ---------- generated cells ---------- *)
NLay(it) == IF it.tr THEN 1 ELSE NSub(it.res)
FirstLayer(items, i) == FoldLeft(LAMBDA x, k : x + NLay(items[k]), 0, [k \in 1..i - 2 |-> k + 1])   \* layers before item i
(* keys of the layered cells: <<item id, column id, layer id>> *)
Keys(items) == UNION {UNION {{<<i - 2, c - 1, FirstLayer(items, i) + j - 1>> : c \in DOMAIN items[i].base.cells} : j \in 1..NSub(items[i].res)} : i \in {x \in 2..Len(items) : ~items[x].tr}}
LayerCell(items, zc, ax, key, perc) ==
  LET i == key[1] + 2  b == items[i].base  ids == b.cells[key[2] + 1]  j == key[3] - FirstLayer(items, i) + 1  p == perc[i]
      at(v, q) == [b.pts[v] EXCEPT ![ax] = Lerp(zc[i - 1][v], zc[i][v], q)] IN
  [pts  |-> [k \in DOMAIN ids |-> at(ids[k], p[j])] \o [k \in DOMAIN ids |-> at(ids[k], p[j + 1])],
   flat |-> p[j] = p[j + 1] \/ \A k \in DOMAIN ids : zc[i - 1][ids[k]] = zc[i][ids[k]],
   \* interfaces that meet at a rounded (off-lattice) elevation may or may not be exactly equal
   vague |-> \A k \in DOMAIN ids : Near(zc[i - 1][ids[k]], zc[i][ids[k]], 2) /\ \E k2 \in DOMAIN ids : zc[i][ids[k2]] % ULat # 0]
Percs(items) == [i \in DOMAIN items |-> IF i = 1 \/ items[i].tr THEN <<>> ELSE Perc(items[i].res, items[i].m)]
GenRefused(items) == Len(items) <= 1 \/ \E i \in 2..Len(items) : HasBad(items[i].grp) \/ (~items[i].tr /\ Refused(items[i].res, items[i].m))
SameCorners(a, b, t) == Len(a) = Len(b) /\ (\A i \in DOMAIN a : \E j \in DOMAIN b : NearP(a[i], b[j], t)) /\ (\A j \in DOMAIN b : \E i \in DOMAIN a : NearP(a[i], b[j], t))
====
