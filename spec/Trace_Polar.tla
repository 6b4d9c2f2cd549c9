---- MODULE Trace_Polar ----
EXTENDS TraceBase, Polar
T == 9
FailPolar(e) == LET a == e.args IN
  IF PolarRefused(a) THEN Bad({<<"C03.refuse", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C03.raised"}
  ELSE LET g == PolarGrid(a) IN
       IF e.dims # g.dims \/ Len(e.pts) # Len(g.pts) THEN {"C03.dims"}
       ELSE Bad({<<"C03.points", NearPS(e.pts, g.pts, T)>>, <<"C03.hidden", Len(e.hid) = Len(g.hid) /\ \A k \in DOMAIN g.hid : g.flat[k] \/ e.hid[k] = g.hid[k]>>})
SameCells(e, cells) == /\ \A i \in DOMAIN cells : \E j \in DOMAIN e.cells : SameOrMirror(cells[i], e.cells[j], T)
                       /\ \A j \in DOMAIN e.cells : \E i \in DOMAIN cells : SameOrMirror(cells[i], e.cells[j], T)
FailSector(e) == LET a == e.args IN
  IF SectorRefused(a) THEN Bad({<<"C03.refuse", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C03.raised"}
  ELSE LET cells == SectorCells(a) IN
       IF Len(e.cells) # Len(cells) THEN {"C03.ncells"}
       ELSE Bad({<<"C03.sectorcells", \A i \in DOMAIN cells : SameCell(cells[i], e.cells[i], T)>>})
FailMixed(e) == LET a == e.args IN
  IF MixedRefused(a) THEN Bad({<<"C03.refuse", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C03.raised"}
  ELSE LET cells == MixedCells(a) IN
       IF Len(e.cells) # Len(cells) THEN {"C03.ncells"}
       ELSE Bad({<<"C03.mixedcells", SameCells(e, cells)>>, <<"C03.joined", e.np = MixedPoints(a)>>,
                 <<"C03.mixedhidden", \A i \in DOMAIN e.hid : ~e.hid[i]>>})
Fail(e, s) == CASE e.args.kind = "polar" -> FailPolar(e) [] e.args.kind = "sector" -> FailSector(e) [] e.args.kind = "mixed" -> FailMixed(e)
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
