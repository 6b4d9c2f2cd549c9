---- MODULE Trace_Planar ----
(* events: surface, quad, regular, curved (see suites/planar.py) *)
EXTENDS TraceBase, Planar
T == 4
FailSurface(e) ==
  IF SurfaceRefused(e.a, e.b, e.plane, e.res, e.m) THEN Bad({<<"C02.refuse", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C02.raised"}
  ELSE LET o == Surface(e.a, e.b, e.plane, e.res, e.m) IN
       IF e.dims # o.dims \/ Len(e.pts) # Len(o.pts) THEN {"C02.dims"}
       ELSE Bad({<<"C02.points", NearPS(e.pts, o.pts, T)>>,
                 <<"C02.hidden", e.hid = o.hid>>,
                 <<"C02.pointdata", e.pda # <<>> => e.pd = [k \in DOMAIN o.psrc |-> e.pda[o.psrc[k]]]>>,
                 <<"C02.celldata", e.cda # <<>> => e.cd = [k \in DOMAIN o.csrc |-> e.cda[o.csrc[k]]]>>})
Dup(p, i) == p[i] = p[i + 1]
FailQuad(e) ==
  IF Refused(e.xres, e.xm) \/ Refused(e.yres, e.ym) THEN Bad({<<"C02.refuse", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C02.raised"}
  ELSE LET xp == Perc(e.xres, e.xm)  yp == Perc(e.yres, e.ym)  nx == Len(xp)  ny == Len(yp)
           la == Line(e.c[1], e.c[2], e.xres, e.xm)  lb == Line(e.c[4], e.c[3], e.xres, e.xm) IN
       IF e.dims # <<nx, ny, 1>> \/ Len(e.pts) # nx * ny THEN {"C02.quaddims"}
       ELSE Bad({<<"C02.quadpoints", \A k \in 1..nx * ny : LET ij == IJ("xy", nx, ny, k) IN
                       NearP(e.pts[k], AddP(LerpP(la[ij[1]], lb[ij[1]], yp[ij[2]]), e.center), T + 4)>>,
                 <<"C02.quadhidden", \A k \in DOMAIN e.hid : LET ij == IJ("xy", nx - 1, ny - 1, k) IN
                       e.hid[k] <=> (Dup(xp, ij[1]) \/ Dup(yp, ij[2]))>>})
FailRegular(e) == IF e.exc # "" THEN {"C02.raised"}
                  ELSE Bad({<<"C02.regular", NearPS(e.pts, RegularLine(e.ip, e.il, e.n), T)>>, <<"C02.oneline", e.lines = <<e.n + 1>>>>})
FailCurved(e) == IF e.exc # "" THEN {"C02.raised"}
                 ELSE Bad({<<"C02.curved", NearPS(e.pts, CurvedLine(e.o, e.u, e.v, e.a, e.t, e.n, e.dl), T + e.n)>>, <<"C02.oneline", e.lines = <<e.n + 1>>>>})
Fail(e, s) == CASE e.ev = "surface" -> FailSurface(e) [] e.ev = "quad" -> FailQuad(e)
                [] e.ev = "regular" -> FailRegular(e) [] e.ev = "curved" -> FailCurved(e)
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
