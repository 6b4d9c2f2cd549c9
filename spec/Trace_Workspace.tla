---- MODULE Trace_Workspace ----
(* new, call, build, add, gen, edit: e.all lists all live objects with their contents after the event. *)
EXTENDS TraceBase, Workspace
Kept(e, s, but) == \A i \in DOMAIN e.all : e.all[i][1] = but \/ e.all[i][1] \notin DOMAIN s.val \/ s.val[e.all[i][1]] = e.all[i][2]
(* an object given to a call must be known *)
Fail(e, s) ==
  CASE e.ev = "begin" -> {}
    [] e.ev = "new" -> Bad({<<"C24.inputs_changed", Kept(e, s, e.h)>>})
    [] e.ev = "call" -> Bad({<<"C24.inputs_changed", Kept(e, s, e.target)>>, <<"C24.repeatable", Known(s, CallKey(s, e.op, e.args), e.fp)>>, <<"C24.fresh", e.same = <<>>>>})
    [] e.ev = "build" -> Bad({<<"C24.inputs_changed", Kept(e, s, "")>>, <<"C24.raised", e.exc = "">>})
    [] e.ev = "add" -> Bad({<<"C24.inputs_changed", Kept(e, s, "")>>, <<"C24.raised", e.exc = "">>})
    [] e.ev = "gen" -> Bad({<<"C24.inputs_changed", Kept(e, s, "")>>, <<"C24.regenerate", Known(s, GenKey(s, e.b, e.op), e.fp)>>, <<"C24.raised", e.exc = "">>})
    [] e.ev = "edit" -> Bad({<<"C24.shared", Kept(e, s, e.h)>>})
(* the observed contents are taken over, so that one fault is reported once *)
Sync(e, w) == [w EXCEPT !.val = FoldLeft(LAMBDA f, x : Put(f, x[1], x[2]), @, e.all)]
Succ(e, s) ==
  Sync(e, CASE e.ev = "begin" -> [val |-> Empty, memo |-> Empty, bld |-> Empty]
    [] e.ev = "new" -> New(s, e.h, e.fp)
    [] e.ev = "call" -> IF e.target = "" THEN Call(s, e.op, e.args, e.res, e.fp) ELSE InPlace(s, e.op, e.args, e.target, e.fp)
    [] e.ev = "build" -> Build(s, e.b, e.op, e.args)
    [] e.ev = "add" -> Give(s, e.b, e.op, e.args)
    [] e.ev = "gen" -> Gen(s, e.b, e.op, e.res, e.fp)
    [] e.ev = "edit" -> Edit(s, e.h, e.fp))
Init == l = 1 /\ st = [val |-> Empty, memo |-> Empty, bld |-> Empty]
Next == Step(Fail, Succ)
====
