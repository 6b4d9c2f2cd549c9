---- MODULE Trace_Picking ----
(* start: the window opens; pick: one element was clicked, with the elements highlighted after it; result: what was returned.
   lasso: clicks and result of a lasso selection.  State: selection so far.                                              *)
EXTENDS TraceBase, Picking
FailLasso(e) ==
  IF e.view \notin Views THEN Bad({<<"C25.view_refused", e.exc = "ValueError">>}) ELSE
  IF e.exc # "" THEN {"C25.lasso_raised"} ELSE
  LET poly == [i \in DOMAIN e.clicks |-> Project(e.clicks[i], e.view)]
      at == [i \in DOMAIN e.at |-> Project(e.at[i], e.view)]
      got == {e.ids[i] : i \in DOMAIN e.ids} IN
  Bad({<<"C25.lasso_inside", \A i \in DOMAIN at : IF at[i][1] > 1000000000 THEN (i - 1) \notin got (* no centre *) ELSE Border(poly, at[i]) \/ ((i - 1) \in got <=> Within(poly, at[i]))>>,
       <<"C25.lasso_ids", got \subseteq {i - 1 : i \in DOMAIN at} /\ \A i, j \in DOMAIN e.ids : i < j => e.ids[i] < e.ids[j]>>,
       <<"C25.lasso_polygon", ~e.withpoly \/ e.poly = poly>>,
       <<"C25.lasso_shown", e.shown = 1 /\ e.opened = 1>>, <<"C25.lasso_view", e.seen \in {"", e.view}>>})
Fail(e, s) ==
  CASE e.ev = "lasso" -> FailLasso(e)
    [] e.ev = "begin" -> {}
    [] e.ev = "pick" -> LET n == Toggle(s, e.id) IN Bad({<<"C25.highlight", {e.hi[i] : i \in DOMAIN e.hi} = {n[i] : i \in DOMAIN n} /\ Len(e.hi) = Len(n)>>})
    [] e.ev = "result" -> IF e.view # "" /\ e.view \notin Views THEN Bad({<<"C25.view_refused", e.exc = "ValueError">>}) ELSE
                          IF e.exc # "" THEN {"C25.raised"} ELSE
                          Bad({<<"C25.result", e.ids = s>>, <<"C25.shown", e.shown = 1 /\ e.opened = 1>>, <<"C25.view", e.view = "" \/ e.seen \in {"", e.view}>>, <<"C25.integers", e.isint>>})
Succ(e, s) == IF e.ev = "begin" THEN <<>> ELSE IF e.ev = "pick" THEN Toggle(s, e.id) ELSE s
Init == l = 1 /\ st = <<>>
Next == Step(Fail, Succ)
====
