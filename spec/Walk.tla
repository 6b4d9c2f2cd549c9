---- MODULE Walk ----
(* A polyline through a mesh of convex cells.  A cell is a polygon (sequence of <<x, y>>), extruded from z[1] to z[2] unless the mesh is
   flat; everything is on an integer lattice, positions along a segment are exact fractions <<num, den>> in [0, 1].                    *)
EXTENDS Base
Nx(i, n) == (i % n) + 1
A2(p) == Sum([i \in DOMAIN p |-> p[i][1] * p[Nx(i, Len(p))][2] - p[Nx(i, Len(p))][1] * p[i][2]])
(* half-spaces <<n1, n2, n3, c>> : n . x <= c *)
Half(c, flat) == LET s == Sgn(A2(c.poly))  n == Len(c.poly) IN
   {LET p == c.poly[i]  q == c.poly[Nx(i, n)]  nx == s * (q[2] - p[2])  ny == -s * (q[1] - p[1]) IN <<nx, ny, 0, nx * p[1] + ny * p[2]>> : i \in DOMAIN c.poly}
   \union (IF flat THEN {} ELSE {<<0, 0, 1, c.z[2]>>, <<0, 0, -1, -c.z[1]>>})
DotN(h, v) == h[1] * v[1] + h[2] * v[2] + h[3] * v[3]
Lt(a, b) == a[1] * b[2] < b[1] * a[2]
Le(a, b) == a[1] * b[2] <= b[1] * a[2]
EqF(a, b) == a[1] * b[2] = b[1] * a[2]
F0 == <<0, 1>>
F1 == <<1, 1>>
Hit(h, A, B) == LET s == DotN(h, SubP(B, A)) IN IF s > 0 THEN <<h[4] - DotN(h, A), s>> ELSE <<DotN(h, A) - h[4], -s>>
Lows(H, A, B) == {Hit(h, A, B) : h \in {x \in H : DotN(x, SubP(B, A)) < 0}} \union {F0}
Highs(H, A, B) == {Hit(h, A, B) : h \in {x \in H : DotN(x, SubP(B, A)) > 0}} \union {F1}
MaxF(S) == CHOOSE x \in S : \A y \in S : Le(y, x)
MinF(S) == CHOOSE x \in S : \A y \in S : Le(x, y)
(* the part of segment AB in the closed cell with half-spaces H: <<>> or <<from, to>> *)
Clip(H, A, B) == LET lo == MaxF(Lows(H, A, B))  hi == MinF(Highs(H, A, B)) IN
   IF Lt(hi, lo) \/ \E h \in H : DotN(h, SubP(B, A)) = 0 /\ DotN(h, A) > h[4] THEN <<>> ELSE <<lo, hi>>
Spans(Hs, A, B) == {[c |-> c, lo |-> Clip(Hs[c], A, B)[1], hi |-> Clip(Hs[c], A, B)[2]] : c \in {k \in DOMAIN Hs : Clip(Hs[k], A, B) # <<>>}}
(* general position: no touching, no running along walls, no corner hit, vertices within cells or outside *)
Once(H, A, B, sp) == /\ (EqF(sp.lo, F0) \/ Cardinality({h \in H : DotN(h, SubP(B, A)) < 0 /\ EqF(Hit(h, A, B), sp.lo)}) = 1)
                     /\ (EqF(sp.hi, F1) \/ Cardinality({h \in H : DotN(h, SubP(B, A)) > 0 /\ EqF(Hit(h, A, B), sp.hi)}) = 1)
InClosed(H, v) == \A h \in H : DotN(h, v) <= h[4]
InOpen(H, v) == \A h \in H : DotN(h, v) < h[4]
GenericSeg(Hs, A, B) == LET S == Spans(Hs, A, B) IN
   /\ A # B
   /\ \A x \in S : Lt(x.lo, x.hi) /\ Once(Hs[x.c], A, B, x)
   /\ \A x, y \in S : x # y => Le(x.hi, y.lo) \/ Le(y.hi, x.lo)
   /\ \A c \in DOMAIN Hs : \A v \in {A, B} : InClosed(Hs[c], v) => InOpen(Hs[c], v)
Ordered(S) == SetToSortSeq(S, LAMBDA x, y : Lt(x.lo, y.lo))
Flat3(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
(* all pieces of a polyline, in order *)
Pieces(Hs, V) == Flat3([i \in 1..Len(V) - 1 |-> LET o == Ordered(Spans(Hs, V[i], V[i + 1])) IN [k \in DOMAIN o |-> [s |-> i, c |-> o[k].c, lo |-> o[k].lo, hi |-> o[k].hi]]])
Abut(x, y) == (x.s = y.s /\ EqF(x.hi, y.lo)) \/ (y.s = x.s + 1 /\ EqF(x.hi, F1) /\ EqF(y.lo, F0))
OneVisit(P) == \A i \in 1..Len(P) - 1 : Abut(P[i], P[i + 1])
(* last pieces of the stay in a cell (a stay goes on over the vertices of the line) *)
Ends(P) == SelectSeq([i \in DOMAIN P |-> i], LAMBDA i : i = Len(P) \/ P[i].c # P[i + 1].c \/ ~EqF(P[i].hi, F1))
At(s, t, line, c) == [s |-> s, t |-> t, line |-> line, c |-> c]
(* the points of the cut line: segment and position, with the line segment and cell (0-based, -1 outside) of the piece ending there *)
Cut(P, n, before, after) ==
  IF P = <<>> THEN [k \in 1..n |-> At(IF k = 1 THEN 1 ELSE k - 1, IF k = 1 THEN F0 ELSE F1, k - 2, -1)]
  ELSE LET f == P[1]  g == P[Len(P)]
           starts == EqF(f.lo, F0)
           pre == [k \in 1..f.s |-> At(IF k = 1 THEN 1 ELSE k - 1, IF k = 1 THEN F0 ELSE F1, k - 2, -1)]
           ent == IF starts THEN <<>> ELSE <<At(f.s, f.lo, f.s - 1, -1)>>
           en == Ends(P)
           mid == [i \in DOMAIN en |-> At(P[en[i]].s, P[en[i]].hi, P[en[i]].s - 1, P[en[i]].c - 1)]
           post == IF EqF(g.hi, F1) \/ after THEN <<>> ELSE [k \in 1..n - g.s |-> At(g.s + k - 1, F1, g.s + k - 2, -1)]
       IN (IF before /\ ~starts THEN ent ELSE pre \o ent) \o mid \o post
(* coordinates, times 1000 *)
Where(V, x) == LET A == V[x.s]  B == V[x.s + 1] IN [c \in 1..3 |-> 1000 * A[c] + RoundDiv(1000 * x.t[1] * (B[c] - A[c]), x.t[2])]
====
