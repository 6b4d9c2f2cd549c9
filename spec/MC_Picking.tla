---- MODULE MC_Picking ----
(* Every history of picks. *)
EXTENDS Picking, Json
CONSTANT N, Ids
VARIABLES sel, h
Init == sel = <<>> /\ h = <<>>
Pick == Len(h) < N /\ \E x \in Ids : sel' = Toggle(sel, x) /\ h' = Append(h, x)
Next == Pick
Count(x) == Cardinality({i \in DOMAIN h : h[i] = x})
Parity == \A x \in Ids : (\E i \in DOMAIN sel : sel[i] = x) <=> Count(x) % 2 = 1
NoTwice == \A i, j \in DOMAIN sel : sel[i] = sel[j] => i = j
Recent == \A i, j \in DOMAIN sel : i < j => Max({k \in DOMAIN h : h[k] = sel[i]}) < Max({k \in DOMAIN h : h[k] = sel[j]})
History == sel = Picked(h)
Emit == Len(h) = N => PrintT("B|" \o ToJson([h |-> h]))
====
