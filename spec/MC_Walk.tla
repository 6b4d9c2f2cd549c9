---- MODULE MC_Walk ----
(* A walker that moves from wall to wall of small meshes: it sees what the declarative description says, and covers the whole line. *)
EXTENDS Walk, Json
VARIABLES m, V, pos, cell, path
Q(x0, x1, y0, y1) == [poly |-> <<<<x0, y0>>, <<x1, y0>>, <<x1, y1>>, <<x0, y1>>>>, z |-> <<0, 4>>]
T(a, b, c) == [poly |-> <<a, b, c>>, z |-> <<0, 4>>]
Meshes == {<<Q(0, 4, 0, 4), Q(4, 10, 0, 4), Q(0, 4, 4, 6), Q(4, 10, 4, 6)>>,
           <<T(<<0, 0>>, <<8, 0>>, <<0, 8>>), T(<<8, 0>>, <<8, 8>>, <<0, 8>>), Q(8, 10, 0, 8)>>,
           <<Q(0, 4, 0, 3), Q(4, 8, 0, 3), Q(0, 4, 3, 8)>>}
Pt == {<<-1, 1, 0>>, <<1, 1, 0>>, <<3, 5, 0>>, <<5, 2, 0>>, <<9, 7, 0>>, <<11, 3, 0>>, <<6, -2, 0>>, <<7, 5, 0>>}
Hs == [c \in DOMAIN m |-> Half(m[c], TRUE)]
Init == /\ m \in Meshes /\ V \in {<<a, b, c>> : a, b, c \in Pt} \union {<<a, b>> : a, b \in Pt}
        /\ \A i \in 1..Len(V) - 1 : GenericSeg([c \in DOMAIN m |-> Half(m[c], TRUE)], V[i], V[i + 1])
        /\ pos = <<1, F0>> /\ path = <<>>
        /\ cell = LET C == {c \in DOMAIN m : InClosed(Half(m[c], TRUE), V[1])} IN IF C = {} THEN 0 ELSE CHOOSE c \in C : TRUE
Later(S, t) == {x \in S : Lt(t, x)}
(* the next wall (or vertex) on the segment, and the cell behind it *)
Walls(i) == LET S == Spans(Hs, V[i], V[i + 1]) IN {x.lo : x \in S} \union {x.hi : x \in S} \union {F1}
Behind(i, t) == LET C == {x \in Spans(Hs, V[i], V[i + 1]) : Le(x.lo, t) /\ Lt(t, x.hi)} IN IF C = {} THEN 0 ELSE (CHOOSE x \in C : TRUE).c
Go == /\ pos[1] < Len(V)
      /\ LET i == pos[1]  t == MinF(Later(Walls(i), pos[2])) IN
           /\ path' = Append(path, [s |-> i, c |-> cell, lo |-> pos[2], hi |-> t])
           /\ IF EqF(t, F1) THEN pos' = <<i + 1, F0>> /\ cell' = cell ELSE pos' = <<i, t>> /\ cell' = Behind(i, t)
      /\ UNCHANGED <<m, V>>
Next == Go
Done == pos[1] = Len(V)
Inside == SelectSeq(path, LAMBDA x : x.c # 0)
SameP(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : a[i].s = b[i].s /\ a[i].c = b[i].c /\ EqF(a[i].lo, b[i].lo) /\ EqF(a[i].hi, b[i].hi)
SeesPieces == Done => SameP(Inside, Pieces(Hs, V))
Covers == \A i \in 1..Len(path) - 1 : Abut(path[i], path[i + 1])
(* the cut line starts and ends where the line does *)
EndsMeet == (Done /\ OneVisit(Pieces(Hs, V))) => LET C == Cut(Pieces(Hs, V), Len(V), FALSE, FALSE) IN
   Where(V, C[1]) = [c \in 1..3 |-> 1000 * V[1][c]] /\ Where(V, C[Len(C)]) = [c \in 1..3 |-> 1000 * V[Len(V)][c]]
Ignored == (Done /\ OneVisit(Pieces(Hs, V)) /\ Pieces(Hs, V) # <<>>) => LET C == Cut(Pieces(Hs, V), Len(V), TRUE, TRUE) IN \A i \in 2..Len(C) : C[i].c # -1
Emit == Done => PrintT("B|" \o ToJson([cells |-> m, v |-> V]))
====
