---- MODULE MC_TwoOpt ----
(* Reversals that shorten: every run ends (the length decreases), keeps the start and every point, and is never longer than before. *)
EXTENDS Reduce, Json
CONSTANT N
VARIABLES s, p, close
Init == /\ s \in {q \in [1..N -> {<<x, 0, 0>> : x \in 0..N - 1}] : \A i, j \in 1..N : q[i] = q[j] => i = j} /\ p = s /\ close \in BOOLEAN
Shorter(i, j) == PathLen(Flip(p, i, j), close) < PathLen(p, close)
Next == \E i \in 2..N, j \in 2..N : i < j /\ Shorter(i, j) /\ p' = Flip(p, i, j) /\ UNCHANGED <<s, close>>
Perm == \A i \in 1..N : \E j \in 1..N : p[j] = s[i]
Start == p[1] = s[1]
NotLonger == PathLen(p, close) <= PathLen(s, close)
Emit == p = s => PrintT("B|" \o ToJson([s |-> s, close |-> close]))
====
