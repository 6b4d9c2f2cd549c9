---- MODULE MC_Stack ----
(* The stacking builder over one base point: all item lists up to MaxItems. *)
EXTENDS Stack, Json
CONSTANTS MaxItems, Elev, Prios, Thicks
VARIABLES items, up, gen
Item(z, p, t) == [z |-> <<z>>, prio |-> p, th |-> t, tr |-> FALSE, res |-> [k |-> "none"], m |-> "", grp |-> [k |-> "none"]]
Init == items = <<>> /\ up \in BOOLEAN /\ gen = <<>>
Add == gen = <<>> /\ Len(items) < MaxItems /\ \E z \in Elev, p \in Prios, t \in IF items = <<>> THEN {0} ELSE Thicks : items' = Append(items, Item(z, p, t)) /\ UNCHANGED <<up, gen>>
Generate == gen = <<>> /\ Len(items) >= 2 /\ gen' = Cut(items, up) /\ UNCHANGED <<items, up>>
Next == Add \/ Generate
S == IF up THEN 1 ELSE -1
Z(i) == S * gen[i][1]
Ok == gen # <<>>
NoInversion == Ok => \A i \in 2..Len(items) : Z(i) - Z(i - 1) >= items[i].th
TopPriorityStays == Ok => gen[Ranked(items)[1]] = items[Ranked(items)[1]].z
Free == \A i \in 2..Len(items) : S * (items[i].z[1] - items[i - 1].z[1]) >= items[i].th
UntouchedWithoutConflict == Ok /\ Free => \A i \in DOMAIN items : gen[i] = items[i].z
(* two items: the rule of the documentation, literally *)
PairRule == Ok /\ Len(items) = 2 /\ ~Free =>
   IF items[2].prio < items[1].prio THEN gen[1] = items[1].z /\ Z(2) = Z(1) + items[2].th ELSE gen[2] = items[2].z /\ Z(1) = Z(2) - items[2].th
(* an item that moved touches (at exactly the minimum thickness) an item of higher rank *)
MovedTouches == Ok => \A i \in DOMAIN items : gen[i] # items[i].z =>
   \E j \in DOMAIN items : (items[j].prio > items[i].prio \/ (items[j].prio = items[i].prio /\ j > i)) /\
      IF j < i THEN Z(i) = Z(j) + Gap(items, j, i) ELSE Z(j) = Z(i) + Gap(items, i, j)
Again(its) == [i \in DOMAIN its |-> [its[i] EXCEPT !.z = gen[i]]]
Idempotent == Ok => Cut(Again(items), up) = gen
Emit == Ok => PrintT("B|" \o ToJson([up |-> up, items |-> [i \in DOMAIN items |-> [z |-> items[i].z[1], p |-> items[i].prio, t |-> items[i].th]]]))
====
