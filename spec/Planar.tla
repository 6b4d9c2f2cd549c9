---- MODULE Planar ----
(* Structured surfaces between two lines, bilinear patches, regular and curved lines. *)
EXTENDS Subdivide, Trig

Planes == {"xy", "yx", "xz", "zx", "yz", "zy"}
Transposed(plane) == plane \in {"yx", "zx", "zy"}
(* structured dimensions of a surface of n line points and q positions *)
Dims(plane, n, q) == CASE plane = "xy" -> <<n, q, 1>> [] plane = "yx" -> <<q, n, 1>>
                       [] plane = "xz" -> <<n, 1, q>> [] plane = "zx" -> <<q, 1, n>>
                       [] plane = "yz" -> <<1, n, q>> [] plane = "zy" -> <<1, q, n>>
(* <<line index, position index>> of the k-th point (1-based, first direction fastest) of an n x q surface;
   used with (n-1) x (q-1) for cells *)
IJ(plane, n, q, k) == IF Transposed(plane) THEN << (k - 1) \div q + 1, ((k - 1) % q) + 1 >>
                                              ELSE << ((k - 1) % n) + 1, (k - 1) \div n + 1 >>
SurfPoint(a, b, p, ij) == LerpP(a[ij[1]], b[ij[1]], p[ij[2]])
(* zero area: the interval is empty, or the strip between the two segments lies on one straight line
   (inputs are multiples of K/8) *)
Unit == K \div 8
Collinear(o, u, v) == LET x == [c \in 1..3 |-> (u[c] - o[c]) \div Unit]  y == [c \in 1..3 |-> (v[c] - o[c]) \div Unit] IN
     x[1] * y[2] = x[2] * y[1] /\ x[2] * y[3] = x[3] * y[2] /\ x[1] * y[3] = x[3] * y[1]
Collapsed(a, b, p, ij) == LET i == ij[1]  c == <<a[i], a[i + 1], b[i + 1], b[i]>> IN
                          \/ p[ij[2]] = p[ij[2] + 1]
                          \/ Collinear(c[1], c[2], c[3]) /\ Collinear(c[1], c[3], c[4]) /\ Collinear(c[1], c[2], c[4]) /\ Collinear(c[2], c[3], c[4])
Surface(a, b, plane, res, m) ==
  LET n == Len(a)  p == Perc(res, m)  q == Len(p) IN
  [dims |-> Dims(plane, n, q),
   pts  |-> [k \in 1..n * q |-> SurfPoint(a, b, p, IJ(plane, n, q, k))],
   psrc |-> [k \in 1..n * q |-> IJ(plane, n, q, k)[1]],
   csrc |-> [k \in 1..(n - 1) * (q - 1) |-> IJ(plane, n - 1, q - 1, k)[1]],
   hid  |-> [k \in 1..(n - 1) * (q - 1) |-> Collapsed(a, b, p, IJ(plane, n - 1, q - 1, k))]]

SurfaceRefused(a, b, plane, res, m) == Refused(res, m) \/ Len(a) # Len(b) \/ plane \notin Planes

(* the line between two points, subdivided *)
Line(pa, pb, res, m) == LET p == Perc(res, m) IN [i \in 1..Len(p) |-> LerpP(pa, pb, p[i])]
(* bilinear grid of four corners *)
Quad(c, xres, xm, yres, ym) == Surface(Line(c[1], c[2], xres, xm), Line(c[4], c[3], xres, xm), "xy", yres, ym)

(* point at arc length s (scale K) of a polyline with integer points ip and integer segment lengths il *)
RECURSIVE Along(_, _, _, _)
Along(ip, il, s, k) == IF s <= il[k] * K \/ k = Len(il)
                       THEN [c \in 1..3 |-> ip[k][c] * K + IF il[k] = 0 THEN 0 ELSE (s * (ip[k + 1][c] - ip[k][c])) \div il[k]]
                       ELSE Along(ip, il, s - il[k] * K, k + 1)
RegularLine(ip, il, n) == LET L == Sum(il) * K IN [i \in 1..n + 1 |-> Along(ip, il, ((L \div n) * (i - 1)) + ((L % n) * (i - 1)) \div n, 1)]

(* curved line in the plane of axes u, v: start angle a, turn t (half degrees), n steps, dl at scale K; 2 n divides t *)
RECURSIVE Curve(_, _, _, _, _, _, _)
Curve(o, u, v, a, step, n, dl) ==
  IF n = 0 THEN <<o>>
  ELSE <<o>> \o Curve([c \in 1..3 |-> o[c] + IF c = u THEN Times(dl, Cos(a)) ELSE IF c = v THEN Times(dl, Sin(a)) ELSE 0],
                      u, v, a + 2 * step, step, n - 1, dl)
CurvedLine(o, u, v, a, t, n, dl) == Curve(o, u, v, a + t \div (2 * n), t \div (2 * n), n, dl)
====
