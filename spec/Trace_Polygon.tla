---- MODULE Trace_Polygon ----
(* off: polygons (2-D lattice coordinates in a coordinate plane of normal axis ax, height h) before and after (scale 1000 per lattice
   unit), distance dn / 8; quad: cells before and after.                                                                             *)
EXTENDS TraceBase, Polygon
FailOff(e) ==
  IF e.bad # "" THEN Bad({<<"C21.refused", e.exc = "ValueError">>}) ELSE
  IF e.exc # "" THEN {"C21.raised"} ELSE
  IF Len(e.out) # Len(e.polys) THEN {"C21.number"} ELSE
  UNION {LET p == e.polys[i]  q == e.out[i]  n == Len(p)  s == Sgn(Area2(p)) IN
    IF Len(q) # n THEN {"C21.vertices"} ELSE
    Bad({<<"C21.plane", \A k \in 1..n : Near(q[k][e.ax], e.h * 1000, 2)>>,
         <<"C21.moved", \A k \in 1..n : LET u == Edge(p, k)
                                            L == ISqrt(1000000 * (u[1] * u[1] + u[2] * u[2]))
                                            f(m) == Out(u, <<1000 * p[k][1], 1000 * p[k][2]>>, e.out2[i][m], s)
                                            w == (e.dn * L) \div 8 IN
                          Near(f(k), w, Abs(u[1]) + Abs(u[2]) + 2) /\ Near(f(Nxt(k, n)), w, Abs(u[1]) + Abs(u[2]) + 2)>>,
         <<"C21.straight", \A k \in 1..n : LET u == Edge(p, k)  v == Edge(p, Prv(k, n)) IN
              X2(u, v) = 0 => Near(Dot2(u, Sub2(e.out2[i][k], <<1000 * p[k][1], 1000 * p[k][2]>>)), 0, Abs(u[1]) + Abs(u[2]) + 2)>>,
         <<"C21.copy", e.dn = 0 => \A k \in 1..n : e.out2[i][k] = <<1000 * p[k][1], 1000 * p[k][2]>>>>}) : i \in DOMAIN e.polys}
QuadType(t) == IF t = 5 THEN 22 ELSE 23
FailQuad(e) ==
  IF \E i \in DOMAIN e.m.cells : e.m.cells[i].type \notin {5, 9} THEN Bad({<<"C21.quad_refused", e.exc # "">>}) ELSE
  IF e.exc # "" THEN {"C21.quad_raised"} ELSE
  IF Len(e.out.cells) # Len(e.m.cells) THEN {"C21.quad_number"} ELSE
  UNION {LET c == e.m.cells[i].ids  q == e.out.cells[i].ids  n == Len(c) IN
    IF Len(q) # 2 * n THEN {"C21.quad_size"} ELSE
    Bad({<<"C21.quad_type", e.out.cells[i].type = QuadType(e.m.cells[i].type)>>,
         <<"C21.quad_corners", \A k \in 1..n : e.out.pts[q[k]] = e.m.pts[c[k]]>>,
         <<"C21.quad_mid", \A k \in 1..n : \A x \in 1..3 : Near(2 * e.out.pts[q[n + k]][x], e.m.pts[c[k]][x] + e.m.pts[c[Nxt(k, n)]][x], 2)>>}) : i \in DOMAIN e.m.cells}
Fail(e, s) == IF e.ev = "off" THEN FailOff(e) ELSE FailQuad(e)
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
