---- MODULE Polar ----
(* Circular and mixed circular/rectangular objects.  Angles are in half degrees, radii and lengths at scale K. *)
EXTENDS Planar

(* point of the circle of radius r at fraction p of [t0, t1] *)
OnArc(r, t0, t1, p) ==
  LET s == IF t1 >= t0 THEN t0 * PS + p * (t1 - t0) ELSE t1 * PS + (PS - p) * (t0 - t1)
      h == s \div PS  f == s % PS IN <<Times(r, CosF(h, f)), Times(r, SinF(h, f)), 0>>
Arc(r, t0, t1, res, m) == LET p == Perc(res, m) IN [i \in 1..Len(p) |-> OnArc(r, t0, t1, p[i])]

(* structured polar grid: angle fastest, then radius, then height; centred heights *)
PolarIJK(nt, nr, k) == << ((k - 1) % nt) + 1, (((k - 1) \div nt) % nr) + 1, (k - 1) \div (nt * nr) + 1 >>
PolarGrid(g) ==
  LET tp == Perc(g.tres, g.tm)  rp == Perc(g.rres, g.rm)  zp == IF g.solid THEN Perc(g.zres, g.zm) ELSE <<0>>
      nt == Len(tp)  nr == Len(rp)  nz == Len(zp)
      inner == Arc(g.ri, g.t0, g.t1, g.tres, g.tm)  outer == Arc(g.ro, g.t0, g.t1, g.tres, g.tm)
      z == [i \in 1..nz |-> IF g.solid THEN ScaleBy(zp[i], g.h) - g.h \div 2 ELSE 0] IN
  [dims |-> <<nt, nr, nz>>,
   pts  |-> [k \in 1..nt * nr * nz |-> LET x == PolarIJK(nt, nr, k)  q == LerpP(inner[x[1]], outer[x[1]], rp[x[2]]) IN
                AddP(<<q[1], q[2], z[x[3]]>>, g.center)],
   hid  |-> [k \in 1..(nt - 1) * (nr - 1) * Max2(1, nz - 1) |-> LET x == PolarIJK(nt - 1, nr - 1, k) IN
                tp[x[1]] = tp[x[1] + 1] \/ rp[x[2]] = rp[x[2] + 1] \/ g.t0 = g.t1],
   flat |-> [k \in 1..(nt - 1) * (nr - 1) * Max2(1, nz - 1) |-> LET x == PolarIJK(nt - 1, nr - 1, k) IN  \* spans half turns: zero area up to rounding
                tp[x[1]] # tp[x[1] + 1] /\ ((tp[x[1] + 1] - tp[x[1]]) * Abs(g.t1 - g.t0)) % (360 * PS) <= 3000]]
PolarRefused(g) == ~(0 <= g.ri /\ g.ri < g.ro) \/ Refused(g.tres, g.tm) \/ Refused(g.rres, g.rm) \/ (g.solid /\ Refused(g.zres, g.zm))

(* sectors: triangles of the apex and two successive arc points *)
SectorCells(g) == LET a == Arc(g.r, g.t0, g.t1, g.res, g.m) IN
   [i \in 1..Len(a) - 1 |-> <<g.center, AddP(a[i], g.center), AddP(a[i + 1], g.center)>>]
SectorRefused(g) == g.r <= 0 \/ Refused(g.res, g.m)

(* strips between two lines, as quadrilaterals *)
StripCells(a, b, rp, center) ==
  LET pt(i, j) == AddP(LerpP(a[i], b[i], rp[j]), center) IN
  [k \in 1..(Len(a) - 1) * (Len(rp) - 1) |->
     LET i == ((k - 1) % (Len(a) - 1)) + 1  j == (k - 1) \div (Len(a) - 1) + 1 IN
     <<pt(i, j), pt(i + 1, j), pt(i + 1, j + 1), pt(i, j + 1)>>]
(* rectangle [0,dx]x[0,dy] and quarter circle of radius r: [0,45] with the vertical side, [45,90] with the horizontal side *)
MixedCells(g) ==
  LET vs == Line(<<g.dx, g.dy, 0>>, <<g.dx, 0, 0>>, g.yres, g.ym)
      hs == Line(<<g.dx, g.dy, 0>>, <<0, g.dy, 0>>, g.xres, g.xm)
      va == Arc(g.r, 90, 0, g.yres, g.ym)
      ha == Arc(g.r, 90, 180, g.xres, g.xm)
      rp == Perc(g.rres, g.rm) IN
  IF g.inside = "rect" THEN StripCells(vs, va, rp, g.center) \o StripCells(hs, ha, rp, g.center)
                       ELSE StripCells(va, vs, rp, g.center) \o StripCells(ha, hs, rp, g.center)
MixedRefused(g) ==
  \/ Refused(g.xres, g.xm) \/ Refused(g.yres, g.ym) \/ Refused(g.rres, g.rm)
  \/ IF g.inside = "rect" THEN g.r <= 0 \/ (g.r \div Unit) * (g.r \div Unit) < (g.dx \div Unit) * (g.dx \div Unit) + (g.dy \div Unit) * (g.dy \div Unit)
                          ELSE g.r <= 0 \/ g.r >= g.dx \/ g.r >= g.dy
MixedPoints(g) == LET nv == NSub(g.yres) + 1  nh == NSub(g.xres) + 1  nr == NSub(g.rres) + 1 IN (nv + nh - 1) * nr

(* two cells of the same corners in the same cyclic order *)
SameCell(c, d, t) == Len(c) = Len(d) /\ \E k \in 0..Len(c) - 1 : \A i \in 1..Len(c) : NearP(c[i], d[((i - 1 + k) % Len(c)) + 1], t)
SameOrMirror(c, d, t) == SameCell(c, d, t) \/ SameCell(c, Rev(d), t)
====
