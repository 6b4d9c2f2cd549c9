---- MODULE Picking ----
(* Interactive selection: picking toggles an element; a lasso encloses what lies in its polygon. *)
EXTENDS Base
Toggle(sel, x) == IF \E i \in DOMAIN sel : sel[i] = x THEN SelectSeq(sel, LAMBDA y : y # x) ELSE Append(sel, x)
RECURSIVE Picked(_)
Picked(h) == IF h = <<>> THEN <<>> ELSE Toggle(Picked(SubSeq(h, 1, Len(h) - 1)), h[Len(h)])
Nxp(i, n) == (i % n) + 1
(* cross product of b - a and p - a *)
Side(a, b, p) == (b[1] - a[1]) * (p[2] - a[2]) - (b[2] - a[2]) * (p[1] - a[1])
(* within a rounding unit of the edge: a point there may count or not *)
OnEdge(a, b, p) == /\ Abs(Side(a, b, p)) <= Abs(b[1] - a[1]) + Abs(b[2] - a[2])
                   /\ Min2(a[1], b[1]) - 1 <= p[1] /\ p[1] <= Max2(a[1], b[1]) + 1
                   /\ Min2(a[2], b[2]) - 1 <= p[2] /\ p[2] <= Max2(a[2], b[2]) + 1
Border(poly, p) == \E i \in DOMAIN poly : OnEdge(poly[i], poly[Nxp(i, Len(poly))], p)
(* the ray to the right of p meets edge ab *)
Meets(a, b, p) == (a[2] > p[2]) # (b[2] > p[2]) /\ (IF b[2] > a[2] THEN Side(a, b, p) > 0 ELSE Side(a, b, p) < 0)
Within(poly, p) == Cardinality({i \in DOMAIN poly : Meets(poly[i], poly[Nxp(i, Len(poly))], p)}) % 2 = 1
(* coordinates seen in a view *)
Seen(view) == CASE view \in {"xy", "-xy"} -> <<1, 2>> [] view \in {"xz", "-xz"} -> <<1, 3>> [] view \in {"yz", "-yz"} -> <<2, 3>>
Views == {"xy", "xz", "yz", "-xy", "-xz", "-yz"}
Project(p, view) == <<p[Seen(view)[1]], p[Seen(view)[2]]>>
====
