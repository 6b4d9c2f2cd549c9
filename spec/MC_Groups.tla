---- MODULE MC_Groups ----
(* A builder accumulating group rules over a three-cell base mesh. *)
EXTENDS Groups, Json
VARIABLES cg, ignore, rules, done
Names == {"a", "b"}
Sels == {[k |-> "mask", v |-> m] : m \in {<<TRUE, FALSE, FALSE>>, <<FALSE, TRUE, TRUE>>}} \cup {[k |-> "idx", v |-> <<2, 0>>], [k |-> "idx", v |-> <<>>]}
        \cup {[k |-> "names", v |-> <<[neg |-> n, name |-> x]>>] : n \in BOOLEAN, x \in Names} \cup {[k |-> "names", v |-> <<[neg |-> FALSE, name |-> "a"], [neg |-> FALSE, name |-> "b"]>>]}
Rules == {[key |-> k, neg |-> n, sel |-> s] : k \in {"X", "a"}, n \in BOOLEAN, s \in Sels}
Init == cg \in {<<>>} \cup [1..3 -> Names] /\ ignore \in {<<>>, <<"a">>, <<"b", "a">>} /\ rules = <<>> /\ done = FALSE
NeedsNames(r) == r.sel.k = "names"
AddRule(r) == ~done /\ Len(rules) < 2 /\ (NeedsNames(r) => cg # <<>> /\ \A i \in DOMAIN r.sel.v : \E c \in 1..3 : cg[c] = r.sel.v[i].name)
              /\ (\A i \in DOMAIN rules : rules[i].key # r.key) /\ rules' = Append(rules, r) /\ UNCHANGED <<cg, ignore, done>>
Finish == ~done /\ done' = TRUE /\ UNCHANGED <<cg, ignore, rules>>
Next == Finish \/ \E r \in Rules : AddRule(r)
G == IF rules = <<>> THEN [k |-> "none"] ELSE [k |-> "rules", v |-> rules]
Res == [c \in 1..3 |-> GroupOf(c, cg, G, ignore, "dflt")]
LastRuleWins == rules # <<>> => \A c \in 1..3 : Chosen(Last(rules), c, cg) => Res[c] = Last(rules).key
Untouched == \A c \in 1..3 : (\A i \in DOMAIN rules : ~Chosen(rules[i], c, cg)) =>
               Res[c] = IF cg = <<>> \/ In(cg[c], ignore) THEN "dflt" ELSE cg[c]
Complement == \A i \in DOMAIN rules, c \in 1..3 : Chosen(rules[i], c, cg) # Chosen([rules[i] EXCEPT !.neg = ~@], c, cg)
IgnoredNeverInherited == \A c \in 1..3 : In(Res[c], ignore) => \E i \in DOMAIN rules : rules[i].key = Res[c]
Emit == done => PrintT("B|" \o ToJson([cg |-> cg, ignore |-> ignore, rules |-> rules]))
====
