---- MODULE Select ----
(* Selecting cells of a mesh, by index or by dimension.  Cells keep their id, so a selection is a set of 0-based ids. *)
EXTENDS Props
Cells0(m) == {i - 1 : i \in DOMAIN m.cells}
Chosen(m, sel, invert) == IF invert THEN Cells0(m) \ sel ELSE sel
TopDim(m) == Max({TypeDim(m.cells[i].type) : i \in DOMAIN m.cells})
ByDim(m, d, method, keep) ==
  {c \in Cells0(m) : LET t == m.cells[c + 1].type IN
     IF t = EMPTY THEN keep ELSE IF method = "upper" THEN TypeDim(t) >= d ELSE TypeDim(t) <= d}
(* geometry of a cell, independent of the numbering of points *)
Geo(c, pts) == IF c.type = PHED THEN [f \in DOMAIN c.faces |-> [k \in DOMAIN c.faces[f] |-> pts[c.faces[f][k]]]] ELSE [k \in DOMAIN c.ids |-> pts[c.ids[k]]]
====
