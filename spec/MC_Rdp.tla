---- MODULE MC_Rdp ----
(* The farthest-point rule as steps on open intervals, in any order: ends in one of the declared results, whatever the order. *)
EXTENDS Reduce, Json
CONSTANT N
VARIABLES s, tol, kept, todo
Lat == {<<0, 0, 0>>, <<1, 0, 0>>, <<2, 1, 0>>, <<0, 2, 0>>, <<2, 0, 1>>}
Init == /\ s \in {q \in [1..N -> Lat] : \A i \in 1..N - 1 : q[i] # q[i + 1]} /\ tol \in {1, 9, 23} /\ kept = {1, N} /\ todo = {<<1, N>>}
Do(x) == LET F == Splits(s, x[1], x[2], tol, 16) IN
  \/ F = {} /\ todo' = todo \ {x} /\ UNCHANGED kept
  \/ \E k \in F : todo' = (todo \ {x}) \union {<<x[1], k>>, <<k, x[2]>>} /\ kept' = kept \union {k}
Next == (\E x \in todo : Do(x)) /\ UNCHANGED <<s, tol>>
Ends == {1, N} \subseteq kept
Result == todo = {} => kept \in Rdp(s, 1, N, tol, 16)
Within == todo = {} => \A k \in (1..N) \ kept : ~Beyond(s[k], s[Prev(kept, k)], s[After(kept, k)], tol, 16)
Emit == todo = {<<1, N>>} => PrintT("B|" \o ToJson([s |-> s, tol |-> tol]))
====
