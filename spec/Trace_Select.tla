---- MODULE Trace_Select ----
(* events: sel (extract_cells), dim (extract_cells_by_dimension) with the mesh before, the result and whether the input was left alone *)
EXTENDS TraceBase, Select
Range0(s) == {s[i] : i \in DOMAIN s}
Want(e) == IF e.ev = "sel" THEN Chosen(e.m, IF e.ismask THEN {i - 1 : i \in {k \in DOMAIN e.sel : e.sel[k] = 1}} ELSE Range0(e.sel), e.inv)
           ELSE ByDim(e.m, IF e.d = 99 THEN TopDim(e.m) ELSE e.d, e.me, e.keep)
FailOut(e) ==
  LET n == Len(e.out.cells)  want == Want(e) IN
  IF n # Cardinality(want) \/ Len(e.orig) # n THEN {"C16.count"} ELSE
  IF Range0(e.orig) # want THEN {"C16.which"} ELSE
  Bad({<<"C16.order", \A i, j \in 1..n : i < j => e.orig[i] < e.orig[j]>>,
       <<"C16.type", \A i \in 1..n : e.out.cells[i].type = e.m.cells[e.orig[i] + 1].type>>,
       <<"C16.geometry", \A i \in 1..n : e.out.cells[i].type # EMPTY => Geo(e.out.cells[i], e.out.pts) = Geo(e.m.cells[e.orig[i] + 1], e.m.pts)>>,
       <<"C16.celldata", \A i \in 1..n : e.ocd[i] = e.cd[e.orig[i] + 1]>>,
       <<"C16.pointdata", \A i \in 1..n : e.out.cells[i].type # EMPTY => \A v \in Corners(e.out.cells[i]) : \E u \in Corners(e.m.cells[e.orig[i] + 1]) : e.out.pts[v] = e.m.pts[u] /\ e.opd[v] = e.pd[u]>>,
       <<"C16.hidden", \A i \in 1..n : e.out.hid[i] = e.m.hid[e.orig[i] + 1]>>})
Fail(e, s) ==
  IF e.ev = "dim" /\ e.me \notin {"upper", "lower"} THEN Bad({<<"C16.refused", e.exc = "ValueError">>, <<"C16.input", e.same>>})
  ELSE IF e.exc # "" THEN {"C16.raised"} ELSE FailOut(e) \union Bad({<<"C16.input", e.same>>})
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
