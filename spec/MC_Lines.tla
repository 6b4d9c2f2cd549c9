---- MODULE MC_Lines ----
(* Meshes of up to two lines over three points: splitting and merging again, in every combination of forms, is lossless. *)
EXTENDS Lines, Json
VARIABLES m, parts, a, b, n
Pt == <<<<0, 0, 0>>, <<1, 0, 0>>, <<1, 2, 0>>>>
Ls == {s \in (1..3) \X (1..3) : s[1] # s[2]} \union {s \in (1..3) \X (1..3) \X (1..3) : s[1] # s[2] /\ s[2] # s[3]} \union {<<1, 2, 3, 1>>, <<3, 2, 1, 3>>, <<1, 3, 1, 2>>}
Mesh(ls) == [pts |-> Pt, lines |-> ls, pd |-> [v |-> <<"p1", "p2", "p3">>], cd |-> [c |-> [i \in DOMAIN ls |-> ToString(i)]]]
(* a list of lines of one form, as a mesh of its own *)
AsMesh(xs) == LET off(i) == Sum([j \in 1..i - 1 |-> Len(xs[j].p)]) IN
   [pts |-> Flat([i \in DOMAIN xs |-> xs[i].p]), lines |-> [i \in DOMAIN xs |-> [k \in DOMAIN xs[i].p |-> off(i) + k]],
    pd |-> [v |-> Flat([i \in DOMAIN xs |-> [k \in DOMAIN xs[i].d |-> xs[i].d[k].v]])], cd |-> [c |-> [i \in DOMAIN xs |-> xs[i].c.c]]]
Init == /\ m \in {Mesh(<<x>>) : x \in Ls} \union {Mesh(<<x, y>>) : x, y \in Ls} /\ parts = <<>> /\ n = 0 /\ a \in BOOLEAN /\ b \in BOOLEAN
SplitM == n = 0 /\ n' = 1 /\ parts' = [i \in DOMAIN m.lines |-> AsMesh(Split(m, a)[i])] /\ UNCHANGED <<m, a, b>>
MergeM == n = 1 /\ n' = 2 /\ parts' = <<AsMesh(Merged(parts, b))>> /\ UNCHANGED <<m, a, b>>
Next == SplitM \/ MergeM
AllSegs(x) == Flat([i \in DOMAIN x.lines |-> Segs(Line(x, i, {"v"}, {"c"}))])
OnePerLine == n = 1 => Len(parts) = Len(m.lines)
Lossless == n = 2 => AllSegs(parts[1]) = AllSegs(m)
Forms == n = 2 => IF b THEN \A i \in DOMAIN parts[1].lines : Len(parts[1].lines[i]) = 2 ELSE (~a => [i \in DOMAIN parts[1].lines |-> Pos(parts[1], i)] = [i \in DOMAIN m.lines |-> Pos(m, i)])
Emit == n = 2 => PrintT("B|" \o ToJson([lines |-> m.lines, a |-> a, b |-> b]))
====
