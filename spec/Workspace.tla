---- MODULE Workspace ----
(* Objects of a session and the calls made on them.  A value is an opaque token; a session is
   [val: object -> value, memo: call -> value, bld: builder -> sequence of what it was given].
   Calls return fresh objects: every other object keeps its value, and equal calls on equal values give equal results.
   Builders take values, not references.                                                                             *)
EXTENDS Base
Empty == [x \in {} |-> ""]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Vals(w, args) == [i \in DOMAIN args |-> w.val[args[i]]]
CallKey(w, op, args) == <<"call", op>> \o Vals(w, args)
GenKey(w, b, op) == <<"gen", op>> \o w.bld[b]
(* transitions *)
New(w, h, v) == [w EXCEPT !.val = Put(@, h, v)]
Known(w, key, v) == (key \in DOMAIN w.memo) => w.memo[key] = v
Remember(w, key, v) == IF key \in DOMAIN w.memo THEN w ELSE [w EXCEPT !.memo = Put(@, key, v)]
Call(w, op, args, h, v) == Remember(IF h = "" THEN w ELSE New(w, h, v), CallKey(w, op, args), v)
(* in-place call: the target gets the value, which is also a function of the arguments *)
InPlace(w, op, args, h, v) == Remember(New(w, h, v), CallKey(w, op, args), v)
Build(w, b, op, args) == [w EXCEPT !.bld = Put(@, b, <<op>> \o Vals(w, args))]
Give(w, b, op, args) == [w EXCEPT !.bld = [@ EXCEPT ![b] = @ \o <<op>> \o Vals(w, args)]]
Gen(w, b, op, h, v) == Remember(IF h = "" THEN w ELSE New(w, h, v), GenKey(w, b, op), v)
(* the user changes an object *)
Edit(w, h, v) == New(w, h, v)
====
