---- MODULE MC_Merge ----
(* The merger on segments of a line: every history of adds and generates up to MaxItems meshes. *)
EXTENDS Merge, Json
CONSTANTS MaxItems
VARIABLES cfg, items, gens, log
Seg(a, b) == [pts |-> << <<a * Lat, 0, 0>>, <<b * Lat, 0, 0>> >>, cells |-> << [type |-> 3, ids |-> <<1, 2>>] >>]
Meshes == {[Seg(a, a + 1) EXCEPT !.cells = @] @@ [names |-> <<n>>, grp |-> g, hid |-> <<a = 1>>, cd |-> IF a = 2 /\ n = "a" THEN <<>> ELSE <<a>>] : a \in 0..2, n \in {"", "a", "b"}, g \in {"", "a", "G"}}
Init == cfg \in [def : {"default", "a"}, ignore : {<<>>, <<"a">>}] /\ items = <<>> /\ gens = <<>> /\ log = <<>>
Result == [cells |-> CellsOf(items, cfg.ignore, cfg.def), clusters |-> Cardinality(Clusters(AllPts(items), 0))]
Add == Len(items) < MaxItems /\ \E m \in Meshes : items' = Append(items, m) /\ gens' = <<>> /\ log' = Append(log, "add") /\ UNCHANGED cfg
Generate == items # <<>> /\ Len(gens) < 2 /\ gens' = Append(gens, Result) /\ log' = Append(log, "gen") /\ UNCHANGED <<cfg, items>>
Next == Add \/ Generate
Ok == gens # <<>>
EveryCellOnce == Ok => Len(gens[1].cells) = Len(items) /\ \A i \in DOMAIN items : gens[1].cells[i][2] = [k \in 1..2 |-> Snap(items[i].pts[k])]
SameAgain == Len(gens) = 2 => gens[1] = gens[2]
Shares == Ok => gens[1].clusters = Cardinality(UNION {{Snap(items[i].pts[1]), Snap(items[i].pts[2])} : i \in DOMAIN items})
NeverIgnored == Ok => \A i \in DOMAIN items : (items[i].names[1] # "" /\ In(items[i].names[1], cfg.ignore)) => gens[1].cells[i][3] = IF items[i].grp = "" THEN cfg.def ELSE items[i].grp
OwnFirst == Ok => \A i \in DOMAIN items : (items[i].names[1] # "" /\ ~In(items[i].names[1], cfg.ignore)) => gens[1].cells[i][3] = items[i].names[1]
HiddenKept == Ok => \A i \in DOMAIN items : gens[1].cells[i][4] = items[i].hid[1]
DataCommon == Ok => \A i \in DOMAIN items : gens[1].cells[i][5] = IF \E j \in DOMAIN items : items[j].cd = <<>> THEN -1 ELSE items[i].cd[1]
Emit == Ok /\ log[Len(log)] = "gen" => PrintT("B|" \o ToJson([def |-> cfg.def, ignore |-> cfg.ignore, log |-> log,
          items |-> [i \in DOMAIN items |-> [a |-> items[i].pts[1][1] \div Lat, name |-> items[i].names[1], grp |-> items[i].grp, hid |-> items[i].hid, cd |-> items[i].cd]]]))
====
