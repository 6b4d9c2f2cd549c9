---- MODULE Trace_Boundary ----
(* events: loops, groups (loops with holes), fill, fillh (filled with holes), none (closed surface), fuse *)
EXTENDS TraceBase, Boundary
Flat2(g) == FlattenSeq(g)
FailLoops(E, L) ==
  Bad({<<"C18.closed", \A i \in DOMAIN L : Closed(L[i]) /\ Simple(L[i])>>,
       <<"C18.edges", UNION {LoopEdges(L[i]) : i \in DOMAIN L} = E>>,
       <<"C18.once", Sum([i \in DOMAIN L |-> Len(L[i]) - 1]) = Cardinality(E)>>})
FailGroups(e, L, E) ==
  LET start == [k \in DOMAIN e.groups |-> 1 + Sum([q \in 1..k - 1 |-> Len(e.groups[q])])] IN
  Bad({<<"C18.nonempty", \A k \in DOMAIN e.groups : e.groups[k] # <<>> >>}) \union
  IF (\E i \in DOMAIN L : ~Closed(L[i])) \/ (\E v \in UNION E : Degree(E, v) # 2) THEN {} ELSE
  Bad({<<"C18.holes", \A k \in DOMAIN e.groups : \A q \in DOMAIN e.groups[k] : ShellOf(L, start[k] + q - 1, e.a, e.b) = IF q = 1 THEN 0 ELSE start[k]>>})
(* total area of the filled polygons (squared lattice units times 1000) against the squares of the region *)
FailFillH(e) ==
  LET tot == Sum([i \in DOMAIN e.sq |-> e.sq[i]]) IN
  Bad({<<"C18.region", Near(Sum(e.area), 1000 * tot, 4 + tot \div 100)>>})
FailFuse(e) ==
  LET m == e.m  ids == Cells0(m)  bnd == [k \in DOMAIN e.sets |-> BoundaryOf(m, SetOf(e.sets[k]))]
      ok == \A k \in DOMAIN e.sets : SingleLoop(bnd[k])
      gone == UNION {SetOf(Tail(e.sets[k])) : k \in DOMAIN e.sets}
      kept == SetToSortSeq(ids \ gone, <)
      which(c) == {k \in DOMAIN e.sets : e.sets[k][1] = c}
  IN IF e.d3 THEN Bad({<<"C17.refuse3d", e.exc = "NotImplementedError">>})
     ELSE IF ~ok THEN Bad({<<"C17.refuse", e.exc = "ValueError">>})
     ELSE IF e.exc # "" THEN {"C17.raised"}
     ELSE IF Len(e.out.cells) # Len(kept) THEN {"C17.count"}
     ELSE Bad({<<"C17.union", \A i \in DOMAIN kept : \A k \in which(kept[i]) : e.out.cells[i].type \in {POLY, TRI, QUAD} /\ CellEdges(e.out, i - 1) = bnd[k] /\ Len(e.out.cells[i].ids) = Cardinality(bnd[k])>>,
               <<"C17.others", \A i \in DOMAIN kept : which(kept[i]) = {} => e.out.cells[i].type = m.cells[kept[i] + 1].type /\ Geo(e.out.cells[i], e.out.pts) = Geo(m.cells[kept[i] + 1], m.pts)>>,
               <<"C17.data", \A i \in DOMAIN kept : e.ocd[i] = e.cd[kept[i] + 1]>>,
               <<"C17.pointdata", \A i \in DOMAIN kept : \A v \in Corners(e.out.cells[i]) : \E u \in DOMAIN m.pts : m.pts[u] = e.out.pts[v] /\ e.pd[u] = e.opd[v]>>,
               <<"C17.hidden", \A i \in DOMAIN kept : which(kept[i]) = {} => e.out.hid[i] = m.hid[kept[i] + 1]>>,
               <<"C17.table", e.table = e.otable>>,
               <<"C17.leftover", UNION {Corners(e.out.cells[i]) : i \in DOMAIN e.out.cells} = DOMAIN e.out.pts>>})
     \union Bad({<<"C17.input", e.same>>})
Fail(e, s) ==
  CASE e.ev = "fuse" -> FailFuse(e)
    [] e.ev = "none" -> Bad({<<"C18.none", e.exc = "" /\ e.none>>})
    [] OTHER ->
        IF e.exc # "" THEN {"C18.raised"} ELSE
        LET m == Canon(e.m)  E == BoundaryOf(m, Visible2(m)) IN
        CASE e.ev = "loops" -> FailLoops(E, e.loops)
          [] e.ev = "groups" -> LET L == Flat2(e.groups) IN FailLoops(E, L) \union FailGroups(e, L, E)
          [] e.ev = "fill" -> FailLoops(E, e.loops)
          [] e.ev = "fillh" -> FailFillH(e)
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
