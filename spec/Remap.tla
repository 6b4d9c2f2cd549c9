---- MODULE Remap ----
(* Categorical data: values of cells or points and a table of labels (set of <<label, value>>).  A mapping is a sequence of
   [lab, val, to] entries, keyed by label if lab # "", else by value.                                                     *)
EXTENDS Base
Vals(d) == {d[i] : i \in DOMAIN d}
ValueOf(tab, lab) == (CHOOSE x \in tab : x[1] = lab)[2]
Known(tab, mp) == \A i \in DOMAIN mp : mp[i].lab = "" \/ \E x \in tab : x[1] = mp[i].lab
KeyOf(tab, en) == IF en.lab = "" THEN en.val ELSE ValueOf(tab, en.lab)
NewVal(tab, mp, v) == LET I == {i \in DOMAIN mp : KeyOf(tab, mp[i]) = v} IN IF I = {} THEN v ELSE mp[CHOOSE i \in I : \A j \in I : j <= i].to
Remapped(d, tab, mp) == [i \in DOMAIN d |-> NewVal(tab, mp, d[i])]
NewTab(d, tab, mp) == {<<x[1], NewVal(tab, mp, x[2])>> : x \in {y \in tab : y[2] \in Vals(d)}}
(* nothing that was different becomes equal *)
Faithful(d, tab, mp) == \A u, v \in Vals(d) : u # v => NewVal(tab, mp, u) # NewVal(tab, mp, v)
Names(d, tab) == [i \in DOMAIN d |-> {x[1] : x \in {y \in tab : y[2] = d[i]}}]
====
