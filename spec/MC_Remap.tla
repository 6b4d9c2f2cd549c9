---- MODULE MC_Remap ----
(* Histories of remappings of three cells: names survive every faithful history, the table never names what is not there. *)
EXTENDS Remap, Json
VARIABLES data, tab, names0, faithful, n
Full == {<<"a", 0>>, <<"b", 1>>, <<"c", 2>>}
Tables == {Full, {<<"a", 0>>, <<"b", 1>>}, {<<"b", 0>>, <<"a", 2>>}, {}}
Init == /\ data \in [1..3 -> 0..2] /\ tab \in Tables /\ names0 = Names(data, tab) /\ faithful = TRUE /\ n = 0
(* a partial function on values; entries by label where there is one and the flag says so *)
Entries(f, bylab) == LET D == SetToSortSeq(DOMAIN f, <) IN [i \in DOMAIN D |->
   LET L == {x \in tab : x[2] = D[i]} IN
   IF bylab /\ L # {} THEN [lab |-> (CHOOSE x \in L : TRUE)[1], val |-> -1, to |-> f[D[i]]] ELSE [lab |-> "", val |-> D[i], to |-> f[D[i]]]]
Partial == UNION {[S -> 0..3] : S \in SUBSET (0..2)}
Next == /\ n < 2 /\ \E f \in Partial, bl \in BOOLEAN : LET mp == Entries(f, bl) IN
            /\ data' = Remapped(data, tab, mp) /\ tab' = NewTab(data, tab, mp)
            /\ faithful' = (faithful /\ Faithful(data, tab, mp))
            /\ (n = 0 => PrintT("B|" \o ToJson([d |-> data, t |-> SetToSeq(tab), mp |-> mp])))
        /\ n' = n + 1 /\ UNCHANGED names0
NamesKept == faithful => Names(data, tab) = names0
TableTrue == n > 0 => \A x \in tab : x[2] \in Vals(data)
LabelsOnce == \A x, y \in tab : x[1] = y[1] => x = y
====
