---- MODULE MC_Average ----
(* Close pairs joined one at a time, in any order, give the same groups: the chains of close points. *)
EXTENDS Reduce, Json
CONSTANT N
VARIABLES s, tol, rep, todo
Pos == {<<0, 0, 0>>, <<1, 0, 0>>, <<2, 0, 0>>, <<4, 0, 0>>, <<1, 1, 0>>}
Pairs == {p \in (1..N) \X (1..N) : p[1] < p[2]}
Init == /\ s \in [1..N -> Pos] /\ tol \in {1, 3, 5} /\ rep = [i \in 1..N |-> i]
        /\ todo = {p \in Pairs : Close(s[p[1]], s[p[2]], tol, 2)}
Next == /\ \E p \in todo : /\ todo' = todo \ {p}
                           /\ rep' = [i \in 1..N |-> IF rep[i] = rep[p[2]] THEN rep[p[1]] ELSE rep[i]]
        /\ UNCHANGED <<s, tol>>
Groups2 == todo = {} => \A i \in 1..N : {j \in 1..N : rep[j] = rep[i]} = Group(s, i, tol, 2)
Apart == todo = {} => \A i, j \in 1..N : rep[i] # rep[j] => ~Close(s[i], s[j], tol, 2)
Emit == (rep = [i \in 1..N |-> i]) => PrintT("B|" \o ToJson([s |-> s, tol |-> tol]))
====
