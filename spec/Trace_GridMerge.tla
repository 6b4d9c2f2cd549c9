---- MODULE Trace_GridMerge ----
(* events: grids (structured inputs), mixed (at least one unstructured), single *)
EXTENDS TraceBase, GridMerge
FailGrids(e) ==
  IF GridRefused(e.grids, e.axis) THEN Bad({<<"C11.refuse", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C11.raised"}
  ELSE LET x == GridMerge(e.grids, e.axis) IN
  IF e.out.dims # x.dims THEN {"C11.dims"} ELSE
  Bad({<<"C11.points", e.out.pts = x.pts>>,
       <<"C11.names", x.common \subseteq Names(e.out)>>,
       <<"C11.data", \A n \in x.common \cap Names(e.out) : LET v == DataOf(e.out, n) IN Len(v) = Len(x.src) /\ \A k \in DOMAIN v : v[k] = DataOf(e.grids[x.src[k][1]], n)[x.src[k][2]]>>})
FailMixed(e) ==
  IF e.exc # "" THEN {"C11.mraised"} ELSE
  LET N == {n \in Names(e.ins[1]) : \A i \in DOMAIN e.ins : n \in Names(e.ins[i])}
      want == FlattenSeq([i \in DOMAIN e.ins |-> [k \in DOMAIN e.ins[i].cells |-> CellIn(e.ins[i], k, N)]])
      used(m) == {m.pts[v] : v \in UNION {Range(m.cells[k].ids) : k \in DOMAIN m.cells}}
  IN IF ~(N \subseteq Names(e.out)) THEN {"C11.mnames"} ELSE
     Bad({<<"C11.mcells", BagOf([k \in DOMAIN e.out.cells |-> CellIn(e.out, k, N)]) = BagOf(want)>>,
          <<"C11.mshare", IF e.share THEN Len(e.out.pts) = Cardinality(UNION {Range(e.ins[i].pts) : i \in DOMAIN e.ins})
                          ELSE Len(e.out.pts) = Sum([i \in DOMAIN e.ins |-> Len(e.ins[i].pts)])>>})
Fail(e, s) == CASE e.ev = "grids" -> FailGrids(e) [] e.ev = "mixed" -> FailMixed(e)
                [] e.ev = "single" -> Bad({<<"C11.single", e.exc = "" /\ e.same>>})
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
