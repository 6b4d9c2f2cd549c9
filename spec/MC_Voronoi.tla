---- MODULE MC_Voronoi ----
(* Every history of up to N additions of small blocks with priorities to a 4 x 4 background. *)
EXTENDS Voronoi, Json
CONSTANT N
VARIABLES items
Q == 400
Box(x0, y0, x1, y1) == <<<<x0 * Q, y0 * Q>>, <<x1 * Q, y0 * Q>>, <<x1 * Q, y1 * Q>>, <<x0 * Q, y1 * Q>>>>
World == [shell |-> Box(0, 0, 16, 16), holes |-> <<>>, bg |-> [i \in 1..16 |-> <<(2 + 4 * ((i - 1) % 4)) * Q, (2 + 4 * ((i - 1) \div 4)) * Q>>], names |-> <<>>, dflt |-> "bg", ignore |-> <<>>]
Menu == <<<<Box(1, 1, 4, 9)>>, <<Box(3, 3, 7, 7), Box(7, 3, 13, 7)>>, <<Box(9, 4, 12, 19), Box(9, 19, 12, 29)>>, <<Box(20, 1, 23, 6)>>>>
Prios == {-2, -1, 0, 1, 2}
Names == <<"a", "b", "c", "d">>
Item(k, pr) == [cells |-> Menu[k], prio |-> pr, group |-> [k |-> "name", v |-> Names[k]], names |-> <<>>, id |-> k]
Init == items = <<>>
Next == Len(items) < N /\ \E k \in DOMAIN Menu, pr \in Prios : (\A i \in DOMAIN items : items[i].id # k) /\ items' = Append(items, Item(k, pr))
Order == Handled(items)
Pos(n) == CHOOSE i \in DOMAIN Order : Order[i] = n
ClearIn(G) == ~Vague(World, items, G)
(* an active generator is in no kept cell that beats it *)
RespectIn(G) == \A x \in DOMAIN G : G[x].on <=> ~(\E n \in DOMAIN items : (G[x].it = 0 \/ Pos(n) > Pos(G[x].it)) /\ Beats(items[n], G[x].pr) /\
              \E c \in DOMAIN items[n].cells : InDomain(World, Mean(items[n].cells[c])) /\ InCell(items[n].cells[c], G[x].p))
LastStaysIn(G) == items # <<>> => \A x \in DOMAIN G : G[x].it = Order[Len(Order)] => G[x].on
OutsideIn(G) == \A x \in DOMAIN G : InDomain(World, G[x].p) /\ (G[x].it # 0 => items[G[x].it].id # 4)
(* items of distinct absolute priorities commute *)
Distinct == \A i, j \in DOMAIN items : i # j => Abs(items[i].prio) # Abs(items[j].prio)
Bag(gens) == {<<gens[x].p, gens[x].g, gens[x].on>> : x \in DOMAIN gens}
CommuteIn(G) == Distinct => Bag(Generators(World, Rev(items))) = Bag(G)
(* raising a priority never loses generators of that item *)
RaiseIn(G) == items # <<>> => LET n == Len(items)  up == [items EXCEPT ![n].prio = Abs(@) + 3]  H == Generators(World, up) IN
   {G[x].p : x \in {x \in DOMAIN G : G[x].it = n /\ G[x].on}} \subseteq {H[x].p : x \in {x \in DOMAIN H : H[x].it = n /\ H[x].on}}
Laws == LET g == Generators(World, items) IN /\ Assert(ClearIn(g), "Clear") /\ Assert(RespectIn(g), "Respect") /\ Assert(LastStaysIn(g), "LastStays")
   /\ Assert(OutsideIn(g), "Outside") /\ Assert(CommuteIn(g), "Commute") /\ Assert(RaiseIn(g), "Raise")
Emit == Len(items) = N => PrintT("B|" \o ToJson([h |-> [i \in DOMAIN items |-> [k |-> items[i].id, prio |-> items[i].prio]]]))
====
