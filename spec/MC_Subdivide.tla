---- MODULE MC_Subdivide ----
(* Exhaustive check of the law itself: every (resolution, method) of the model. *)
EXTENDS Subdivide
CONSTANTS NMax
VARIABLES res, m, out
Lists == {s \in UNION {[1..k -> {0, 250000, 500000, PS}] : k \in 2..3} : TRUE}
Ress  == {[k |-> "none"]} \cup {[k |-> "int", n |-> n] : n \in -2..NMax} \cup {[k |-> "list", v |-> s] : s \in Lists} \cup {[k |-> "bad"]}
Init == res \in Ress /\ m \in Methods \cup {"cubic"} /\ out = <<>>
Subdivide == out = <<>> /\ out' = (IF Refused(res, m) THEN <<"ValueError">> ELSE Perc(res, m)) /\ UNCHANGED <<res, m>>
Next == Subdivide
Steps(p) == [i \in 1..Len(p) - 1 |-> p[i + 1] - p[i]]
Ok == out # <<>> /\ ~Refused(res, m)
IncreasingFromStartToEnd == Ok => Increasing(out) /\ (res.k # "list" => out[1] = 0 /\ Near(out[Len(out)], PS, 0) /\ Len(out) = NSub(res) + 1)
ListIsPermutation == Ok /\ res.k = "list" => \A x \in Range(res.v) : Cardinality({i \in DOMAIN out : out[i] = x}) = Cardinality({i \in DOMAIN out : res.v[i] = x})
MirrorImages == Ok /\ res.k # "list" /\ m = "log" => LET r == Perc(res, "log_r") IN \A i \in 1..Len(out) : Near(out[i], PS - r[Len(out) + 1 - i], 1)
SmallToLarge == Ok /\ res.k # "list" /\ m = "log" => Increasing(Steps(out))
LargeToSmall == Ok /\ res.k # "list" /\ m = "log_r" => Increasing(Rev(Steps(out)))
EqualParts   == Ok /\ res.k # "list" /\ m \in {"", "constant"} => \A i, j \in 1..Len(out) - 1 : Near(Steps(out)[i], Steps(out)[j], 1)
====
