---- MODULE Extrude ----
(* Extrusion builder.  State: the base surface and the interfaces obtained so far (points of each), with the item of each.
   A step is [vec, dir, n, sc, ang]: vec at scale K = (n * dir / |dir|), dir an integer direction with integer norm,
   sc the scale factor in quarters (NoScale = omitted), ang in half degrees (NoAngle = omitted).                              *)
EXTENDS Subdivide, Groups, Trig
NoAngle == 99999
NoScale == -1
Coord(P, c) == {P[i][c] : i \in DOMAIN P}
Center2(P) == [c \in 1..3 |-> Min(Coord(P, c)) + Max(Coord(P, c))]      \* twice the center of the bounding box
Cross(u, d) == <<u[2] * d[3] - u[3] * d[2], u[3] * d[1] - u[1] * d[3], u[1] * d[2] - u[2] * d[1]>>
Dot(u, d) == u[1] * d[1] + u[2] * d[2] + u[3] * d[3]
Translate(P, v) == [i \in DOMAIN P |-> AddP(P[i], v)]
ScaleP(P, q) == LET c == Center2(P) IN [i \in DOMAIN P |-> [k \in 1..3 |-> RoundDiv(c[k] * 4 + (2 * P[i][k] - c[k]) * q, 8)]]
(* right-handed rotation by h half degrees about the direction u (integer norm n) through the center *)
RotateP(P, u, n, h) ==
  LET c == Center2(P) IN
  [i \in DOMAIN P |->
    LET d == [k \in 1..3 |-> 2 * P[i][k] - c[k]]
        x == Cross(u, d)
        a == RoundDiv(Dot(u, d), n) IN            \* along the axis
    [k \in 1..3 |-> LET par == RoundDiv(u[k] * a, n) IN
                    RoundDiv(c[k] + par + Times(d[k] - par, Cos(h)) + Times(RoundDiv(x[k], n), Sin(h)), 2)]]
Apply(P, e) ==
  LET P1 == Translate(P, e.vec)
      P2 == IF e.sc = NoScale THEN P1 ELSE ScaleP(P1, e.sc)
  IN IF e.ang = NoAngle THEN P2 ELSE RotateP(P2, e.dir, e.n, e.ang)
(* omitted factors take the builder's defaults *)
Effective(s, e) == [e EXCEPT !.sc = IF e.sc = NoScale THEN s.sc ELSE e.sc, !.ang = IF e.ang = NoAngle THEN s.ang ELSE e.ang]

FirstLayerX(items, i) == FoldLeft(LAMBDA x, k : x + NSub(items[k].res), 0, [k \in 1..i - 1 |-> k])
KeysX(items, nb) == UNION {{<<i - 1, c - 1, FirstLayerX(items, i) + j - 1>> : c \in 1..nb, j \in 1..NSub(items[i].res)} : i \in DOMAIN items}
CellX(cells, ifs, items, key, perc) ==
  LET i == key[1] + 1  ids == cells[key[2] + 1]  j == key[3] - FirstLayerX(items, i) + 1  p == perc[i]
      at(v, q) == LerpP(ifs[i][v], ifs[i + 1][v], q) IN
  [pts |-> [k \in DOMAIN ids |-> at(ids[k], p[j])] \o [k \in DOMAIN ids |-> at(ids[k], p[j + 1])],
   flat |-> p[j] = p[j + 1] \/ \A k \in DOMAIN ids : ifs[i][ids[k]] = ifs[i + 1][ids[k]],
   \* above a base shrunk to a point there is no volume either way
   vague |-> \A k \in DOMAIN ids : NearP(ifs[i][ids[k]], ifs[i][ids[1]], 40)]
GenRefusedX(items) == items = <<>> \/ \E i \in DOMAIN items : HasBad(items[i].grp) \/ Refused(items[i].res, items[i].m)
SameCornersX(a, b, t) == Len(a) = Len(b) /\ (\A i \in DOMAIN a : \E j \in DOMAIN b : NearP(a[i], b[j], t)) /\ (\A j \in DOMAIN b : \E i \in DOMAIN a : NearP(a[i], b[j], t))
====
