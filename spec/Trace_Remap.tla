---- MODULE Trace_Remap ----
(* init: categorical data of a fresh mesh; remap: one call, with data and labels of input and result afterwards.
   State: data and table the mesh must have (st.d, st.t).                                                       *)
EXTENDS TraceBase, Remap
Tab(s) == {<<s[i][1], s[i][2]>> : i \in DOMAIN s}
Bad3(e, s) == e.bad # "" \/ ~Known(s.t, e.mp)
Fail(e, s) ==
  IF e.ev = "init" THEN {} ELSE
  LET nd == Remapped(s.d, s.t, e.mp)  nt == NewTab(s.d, s.t, e.mp) IN
  IF Bad3(e, s) THEN Bad({<<"C22.refused", e.exc = "ValueError">>, <<"C22.untouched", e.data = s.d /\ Tab(e.tab) = s.t>>})
  ELSE IF e.exc # "" THEN {"C22.raised"}
  ELSE LET d == IF e.inplace THEN e.data ELSE e.rdata  t == IF e.inplace THEN Tab(e.tab) ELSE Tab(e.rtab) IN
       Bad({<<"C22.values", d = nd>>, <<"C22.labels", t = nt>>,
            <<"C22.input", e.inplace \/ (e.data = s.d /\ Tab(e.tab) = s.t)>>,
            <<"C22.other", e.other>>,
            <<"C22.returns", e.isnone = e.inplace>>,
            <<"C22.names", (e.names # <<>> /\ Faithful(s.d, s.t, e.mp)) => e.names = e.names0>>})
Succ(e, s) ==
  IF e.ev = "init" THEN [d |-> e.data, t |-> Tab(e.tab)]
  ELSE IF Bad3(e, s) \/ e.exc # "" THEN s ELSE [d |-> Remapped(s.d, s.t, e.mp), t |-> NewTab(s.d, s.t, e.mp)]
Init == l = 1 /\ st = [d |-> <<>>, t |-> {}]
Next == Step(Fail, Succ)
====
