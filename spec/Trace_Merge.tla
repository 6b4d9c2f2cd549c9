---- MODULE Trace_Merge ----
(* events: new, add, gen (see suites/merger.py) *)
EXTENDS TraceBase, Merge
Dflt(s) == IF s.def = "" THEN "default" ELSE s.def
Succ(e, s) == CASE e.ev = "new" -> [def |-> e.def, ignore |-> e.ignore, items |-> <<>>]
                [] e.ev = "add" -> [s EXCEPT !.items = Append(@, [pts |-> e.pts, cells |-> e.cells, names |-> e.names, grp |-> e.grp, hid |-> e.hid, cd |-> e.cd])]
                [] e.ev = "gen" -> s
FailGen(e, s) ==
  IF s.items = <<>> THEN Bad({<<"C10.empty", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C10.raised"}
  ELSE
  LET want == CellsOf(s.items, s.ignore, Dflt(s))
      have == [k \in DOMAIN e.cells |-> Cell(e.pts, e.cells[k], e.names[k], e.hid[k], IF e.cd = <<>> THEN -1 ELSE e.cd[k])]
      sub(q, n) == [k \in DOMAIN q |-> <<q[k][1], q[k][2], q[k][n]>>]
      nogrp(q) == [k \in DOMAIN q |-> <<q[k][1], q[k][2]>>]
      cl == Clusters(AllPts(s.items), e.tol)
      P == UsedPts([pts |-> e.pts, cells |-> e.cells])
  IN Bad({<<"C10.count", Len(have) = Len(want)>>,
          <<"C10.cells", Bag(nogrp(have)) = Bag(nogrp(want))>>,
          <<"C10.groups", Bag(nogrp(have)) = Bag(nogrp(want)) => Bag(sub(have, 3)) = Bag(sub(want, 3))>>,
          <<"C10.hidden", Bag(nogrp(have)) = Bag(nogrp(want)) => Bag(sub(have, 4)) = Bag(sub(want, 4))>>,
          <<"C10.data", Bag(nogrp(have)) = Bag(nogrp(want)) => Bag(sub(have, 5)) = Bag(sub(want, 5))>>,
          <<"C10.table", TableOk(e.table, e.names, e.nums)>>,
          <<"C10.distinct", \A i, j \in DOMAIN e.pts : i < j => e.pts[i] # e.pts[j]>>,
          <<"C10.shared", \A c \in cl : Cardinality({i \in DOMAIN e.pts : \E q \in c : CloseP(e.pts[i], q, e.tol)}) = 1>>,
          <<"C10.points", \A p \in P : \E c \in cl : \E q \in c : CloseP(p, q, e.tol)>>})
Fail(e, s) == CASE e.ev = "new" -> Bad({<<"C10.new", e.exc = "">>})
                [] e.ev = "add" -> Bad({<<"C10.add", e.exc = "">>})
                [] e.ev = "gen" -> FailGen(e, s)
Init == l = 1 /\ st = [none |-> TRUE]
Next == Step(Fail, Succ)
====
