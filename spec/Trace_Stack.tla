---- MODULE Trace_Stack ----
(* events: new, newbad, settr, add, gen (see suites/stack.py) *)
EXTENDS TraceBase, Stack
T == 6
Dflt(s) == IF s.def = "" THEN "default" ELSE s.def
NewState(e) == [pts |-> e.pts, cells |-> e.cells, cg |-> e.cg, cd |-> e.cd, ignore |-> e.ignore, def |-> e.def, axis |-> e.axis, up |-> e.up, items |-> <<>>, tr |-> FALSE]
ItemOf(e, s) == [z |-> Elevation(s, e.arg), res |-> e.res, m |-> e.m, prio |-> e.prio, th |-> IF s.items = <<>> THEN 0 ELSE e.th, grp |-> e.grp, tr |-> s.tr,
                 base |-> [pts |-> s.pts, cells |-> s.cells]]
Succ(e, s) == CASE e.ev = "new" -> NewState(e)
                [] e.ev = "newbad" -> s
                [] e.ev = "settr" -> [s EXCEPT !.pts = e.pts, !.cells = e.cells, !.cg = <<>>, !.cd = <<>>, !.tr = TRUE]
                [] e.ev = "add" -> IF AddRefused(e.arg, e.res, e.m) THEN s ELSE [s EXCEPT !.items = Append(s.items, ItemOf(e, s)), !.tr = FALSE]
                [] e.ev = "gen" -> s
(* twice the area of a triangle in the lateral/axis plane, scale 80 (the lattice of the generated cases) *)
Tri2(p, u, w) == LET q == [k \in 1..3 |-> <<RoundDiv(p[k][u], 125), RoundDiv(p[k][w], 125)>>] IN Abs((q[2][1] - q[1][1]) * (q[3][2] - q[1][2]) - (q[2][2] - q[1][2]) * (q[3][1] - q[1][1]))
Strip2(za, zb, la, lb, u) == \* twice the area between two lines along coordinate u (trapezoids)
  LET A(z, b) == FoldLeft(LAMBDA x, k : x + RoundDiv(z[k] + z[k + 1], 125) * RoundDiv(b[k + 1][u] - b[k][u], 125), 0, [k \in 1..Len(z) - 1 |-> k]) IN Abs(A(zb, lb) - A(za, la))
FailGen(e, s) ==
  IF GenRefused(s.items) THEN
     (IF Len(s.items) <= 1 THEN Bad({<<"C06.empty", e.exc = "ValueError">>})
      ELSE Bad({<<IF \E i \in 2..Len(s.items) : HasBad(s.items[i].grp) THEN "C08.refuse" ELSE "C06.refuse", e.exc = "ValueError">>}))
  ELSE IF e.exc # "" THEN {"C06.raised", "C07.raised", "C08.raised"}
  ELSE
  LET items == s.items  zc == Cut(items, s.up)  perc == Percs(items)
      keys == Keys(items)
      exp == [k \in keys |-> LayerCell(items, zc, s.axis, k, perc)]
      lay == {c \in DOMAIN e.cells : e.cells[c].col >= 0}
      tri == DOMAIN e.cells \ lay
      key(c) == <<e.cells[c].item, e.cells[c].col, e.cells[c].lay>>
      own(c) == key(c) \in keys /\ SameCorners(exp[key(c)].pts, e.cells[c].pts, T)
      \* the cells a generated cell may come from, judged by its geometry
      cand == [c \in lay |-> IF own(c) THEN {key(c)} ELSE {k \in keys : SameCorners(exp[k].pts, e.cells[c].pts, T)}]
      grp(k) == LET it == items[k[1] + 2] IN GroupOf(k[2] + 1, IF Len(it.base.cells) = Len(s.cg) THEN s.cg ELSE <<>>, it.grp, s.ignore, Dflt(s))
      trs == {i \in 2..Len(items) : items[i].tr}
      u == Lateral(s.axis)
  IN
  Bad({<<"C06.count", Cardinality(lay) = Cardinality(keys)>>,
       <<"C06.geometry", \A c \in lay : cand[c] # {}>>,
       <<"C06.complete", (\A c \in lay : own(c)) \/ \A k \in keys : \E c \in lay : k \in cand[c] \/ SameCorners(exp[k].pts, e.cells[c].pts, T)>>,
       <<"C06.hidden", \A c \in lay : cand[c] = {} \/ \E k \in cand[c] : exp[k].vague \/ e.cells[c].hid = exp[k].flat>>,
       <<"C07.keys", \A c \in lay : key(c) \in keys>>,
       <<"C07.once", Cardinality({key(c) : c \in lay}) = Cardinality(lay) /\ Cardinality(lay) = Cardinality(keys)>>,
       <<"C07.geometry", \A c \in lay : key(c) \in keys => cand[c] = {} \/ own(c)>>,
       <<"C07.celldata", s.cd # <<>> => \A c \in lay : key(c) \in keys => e.cells[c].cd = s.cd[e.cells[c].col + 1]>>,
       <<"C08.group", \A c \in lay : cand[c] = {} \/ \E k \in cand[c] : e.cells[c].grp = grp(k)>>,
       <<"C08.table", TableOk(e.table, [c \in DOMAIN e.cells |-> e.cells[c].grp], [c \in DOMAIN e.cells |-> e.cells[c].num])>>,
       <<"C08.names", [c \in DOMAIN e.cells |-> e.cells[c].grp] = e.names>>,
       <<"C07.transition", \A c \in tri : \E i \in trs : e.cells[c].col = -1 /\ e.cells[c].item = i - 2 /\ e.cells[c].lay = FirstLayer(items, i)>>,
       <<"C06.transition", \A i \in trs : LET mine == {c \in tri : e.cells[c].item = i - 2}
                                             a2 == SumPairs({<<c, Tri2(e.cells[c].pts, e.tu, s.axis)>> : c \in mine})
                                             x2 == Strip2(zc[i - 1], zc[i], items[i - 1].base.pts, items[i].base.pts, e.tu)
                                         IN mine # {} /\ Near(a2, x2, x2 \div 50 + 50)>>,
       <<"C08.transition", \A c \in tri : \A i \in trs : e.cells[c].item = i - 2 => e.cells[c].grp = IF items[i].grp.k = "name" THEN items[i].grp.v ELSE Dflt(s)>>})
Fail(e, s) == CASE e.ev = "new" -> Bad({<<"C06.new", e.exc = "">>})
                [] e.ev = "newbad" -> Bad({<<"C06.newrefuse", e.exc = "ValueError">>})
                [] e.ev = "settr" -> {}
                [] e.ev = "add" -> Bad({<<"C06.add", e.exc = IF AddRefused(e.arg, e.res, e.m) THEN "ValueError" ELSE "">>})
                [] e.ev = "gen" -> FailGen(e, s)
Init == l = 1 /\ st = [none |-> TRUE]
Next == Step(Fail, Succ)
====
