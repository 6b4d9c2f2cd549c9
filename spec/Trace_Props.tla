---- MODULE Trace_Props ----
(* events: conn (per-cell connectivity, flattened form, the mesh rebuilt from it), cent (centers), dim (dimension) *)
EXTENDS TraceBase, Props
Struct(f) == f \in {"struct", "image", "rect"}
FailConn(e) ==
  IF e.exc # "" THEN {"C15.raised"} ELSE
  LET cells == e.m.cells  want == cells IN
  IF Len(e.got) # Len(cells) THEN {"C15.count"} ELSE
  Bad({<<"C15.cells", \A i \in DOMAIN cells : want[i].type # PHED => e.got[i] = want[i].ids>>,
       <<"C15.faces", \A i \in DOMAIN cells : want[i].type = PHED => e.got[i] = want[i].faces>>,
       <<"C15.flat", e.flat = Flatten(want)>>,
       <<"C15.rebuild", Len(e.back) = Len(cells) /\ \A i \in DOMAIN cells : (Struct(e.form) /\ e.m.hid[i]) \/ e.back[i] = Core(cells[i])>>})
FailCent(e) ==
  IF e.exc # "" THEN {"C15.craised"} ELSE
  IF Len(e.cen) # Len(e.m.cells) THEN {"C15.ccount"} ELSE
  Bad({<<"C15.centers", \A i \in DOMAIN e.cen : CenterOk(e.cen[i], e.m.cells[i], e.m.pts, e.how)>>})
FailDim(e) ==
  Bad({<<"C15.dimension", e.exc = "" /\ e.dim = (IF Struct(e.form) THEN Cardinality({k \in 1..3 : e.dims[k] > 1}) ELSE Max({TypeDim(e.types[i]) : i \in DOMAIN e.types}))>>})
Fail(e, s) == CASE e.ev = "conn" -> FailConn(e) [] e.ev = "cent" -> FailCent(e) [] e.ev = "dim" -> FailDim(e)
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
