---- MODULE Trace_Subdivide ----
(* event: ev="subdivide", entry, res, m, exc, pos (relative positions observed, scale PS), kind "edge" | "mid" *)
EXTENDS TraceBase, Subdivide
Fail(e, s) ==
  IF Refused(e.res, e.m) THEN Bad({<<"C01.refuse", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C01.raised"}
  ELSE LET p == Perc(e.res, e.m) IN
       Bad({<<"C01.count", Len(e.pos) = IF e.kind = "mid" THEN Len(p) - 1 ELSE Len(p)>>,
            <<"C01.position", NearS(e.pos, IF e.kind = "mid" THEN Mid(p) ELSE p, e.tol)>>})
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
