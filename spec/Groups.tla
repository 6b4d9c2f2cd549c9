---- MODULE Groups ----
(* The group law.  A rule is [key, neg, sel]; a selector is [k |-> "all"], [k |-> "mask", v |-> BOOLEANs],
   [k |-> "idx", v |-> 0-based ids], [k |-> "names", v |-> seq of [neg, name]] or [k |-> "bad"].
   An item's group is [k |-> "none"], [k |-> "name", v |-> name] or [k |-> "rules", v |-> seq of rules].       *)
EXTENDS Base
HasBad(g) == g.k = "rules" /\ \E i \in DOMAIN g.v : g.v[i].sel.k = "bad"
Hit(sel, c, cg) == CASE sel.k = "mask"  -> sel.v[c]
                     [] sel.k = "idx"   -> \E i \in DOMAIN sel.v : sel.v[i] = c - 1
                     [] sel.k = "names" -> \E i \in DOMAIN sel.v : IF sel.v[i].neg THEN cg[c] # sel.v[i].name ELSE cg[c] = sel.v[i].name
Chosen(r, c, cg) == IF r.neg THEN ~Hit(r.sel, c, cg) ELSE Hit(r.sel, c, cg)
In(x, s) == \E i \in DOMAIN s : s[i] = x
GroupOf(c, cg, g, ignore, dflt) ==
  LET own == IF cg # <<>> /\ ~In(cg[c], ignore) THEN cg[c] ELSE dflt IN
  CASE g.k = "none" -> own
    [] g.k = "name" -> g.v
    [] g.k = "rules" -> LET S == {i \in DOMAIN g.v : Chosen(g.v[i], c, cg)} IN
                        IF S = {} THEN own ELSE g.v[CHOOSE i \in S : \A j \in S : j <= i].key
(* table of a generated mesh: seq of [name, num]; names and nums of the cells *)
TableOk(table, names, nums) ==
  /\ {table[i].name : i \in DOMAIN table} = {names[i] : i \in DOMAIN names}
  /\ {table[i].num : i \in DOMAIN table} = 0..Len(table) - 1
  /\ Cardinality({table[i].name : i \in DOMAIN table}) = Len(table)
  /\ \A c \in DOMAIN names : \E i \in DOMAIN table : table[i].name = names[c] /\ table[i].num = nums[c]
====
