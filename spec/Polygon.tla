---- MODULE Polygon ----
(* Offsetting of planar polygons (sequences of <<x, y>> lattice points) and quadratic cells. *)
EXTENDS Reduce
Nxt(i, n) == (i % n) + 1
Prv(i, n) == IF i = 1 THEN n ELSE i - 1
Area2(p) == Sum([i \in DOMAIN p |-> p[i][1] * p[Nxt(i, Len(p))][2] - p[Nxt(i, Len(p))][1] * p[i][2]])
Edge(p, i) == LET q == p[Nxt(i, Len(p))] IN <<q[1] - p[i][1], q[2] - p[i][2]>>
X2(u, v) == u[1] * v[2] - u[2] * v[1]
Dot2(u, v) == u[1] * v[1] + u[2] * v[2]
Sub2(a, b) == <<a[1] - b[1], a[2] - b[2]>>
(* signed distance (times |u|) of q to the edge through a with direction u, positive on the outside of a polygon of orientation s *)
Out(u, a, q, s) == -s * X2(u, Sub2(q, a))
(* rectilinear polygons: the offset polygon in closed form *)
Unit2(u) == <<Sgn(u[1]), Sgn(u[2])>>
Normal(u, s) == <<s * Sgn(u[2]), -s * Sgn(u[1])>>
MoveR(p, d) == LET s == Sgn(Area2(p))  n == Len(p) IN [i \in DOMAIN p |->
  LET a == Normal(Edge(p, Prv(i, n)), s)  b == Normal(Edge(p, i), s) IN
    IF a = b THEN <<p[i][1] + d * a[1], p[i][2] + d * a[2]>> ELSE <<p[i][1] + d * (a[1] + b[1]), p[i][2] + d * (a[2] + b[2])>>]
Perim(p) == Sum([i \in DOMAIN p |-> LET u == Edge(p, i) IN Abs(u[1]) + Abs(u[2])])
====
