---- MODULE MC_Faces ----
(* All sub-complexes of a 2 x 2 patch of squares, each absent, a quad, a pixel, two triangles or hidden. *)
EXTENDS Faces, Json
VARIABLES choice
P(i, j) == i + 3 * j + 1
Sq(i) == LET x == (i - 1) % 2  y == (i - 1) \div 2 IN <<P(x, y), P(x + 1, y), P(x + 1, y + 1), P(x, y + 1)>>
Kinds == {"none", "quad", "pixel", "tri", "hidden"}
Cell(t, ids) == [type |-> t, ids |-> ids, faces |-> <<>>]
Make(i, k) == LET q == Sq(i) IN
  CASE k = "none" -> <<>> [] k = "quad" -> <<Cell(QUAD, q)>> [] k = "hidden" -> <<Cell(QUAD, q)>>
    [] k = "pixel" -> <<Cell(PIXEL, <<q[1], q[2], q[4], q[3]>>)>> [] k = "tri" -> <<Cell(TRI, <<q[1], q[2], q[3]>>), Cell(TRI, <<q[1], q[3], q[4]>>)>>
CellsM == FlattenSeq([i \in 1..4 |-> Make(i, choice[i])])
HidM == FlattenSeq([i \in 1..4 |-> [k \in DOMAIN Make(i, choice[i]) |-> choice[i] = "hidden"]])
Pts == [v \in 1..9 |-> << ((v - 1) % 3) * ULatt, ((v - 1) \div 3) * ULatt, 0>>]
Mesh == [pts |-> Pts, cells |-> CellsM, hid |-> HidM]
Init == choice = [i \in 1..4 |-> "none"]
Next == \E i \in 1..4, k \in Kinds \ {"none"} : choice[i] = "none" /\ (\A j \in i..4 : choice[j] = "none") /\ choice' = [choice EXCEPT ![i] = k]
Ok == CellsM # <<>>
T == FaceTable(Mesh, TRUE)
F == FaceTable(Mesh, FALSE)
Vis == {c \in DOMAIN CellsM : ~HidM[c]}
(* handshake: every visible cell contributes each of its edges *)
Handshake == Ok => SumPairs({<<s, Cardinality(T[s])>> : s \in DOMAIN T}) = SumPairs({<<c, Len(FacesOf(CellsM[c], 2))>> : c \in Vis})
Manifold == Ok => \A s \in DOMAIN F : Cardinality(F[s]) \in {1, 2}
HiddenOwnsNothing == Ok => \A s \in DOMAIN T : \A c \in T[s] : ~HidM[c + 1]
Restriction == Ok => \A s \in DOMAIN T : s \in DOMAIN F /\ T[s] = {c \in F[s] : ~HidM[c + 1]}
(* squares are neighbours exactly when they are adjacent on the lattice *)
Adjacent == (\A i \in 1..4 : choice[i] = "quad") => \A i, j \in 1..4 : i # j =>
   ((\E s \in DOMAIN F : {i - 1, j - 1} \subseteq F[s]) <=> (Abs(((i - 1) % 2) - ((j - 1) % 2)) + Abs((i - 1) \div 2 - (j - 1) \div 2) = 1))
Emit == Ok /\ choice[4] # "none" => PrintT("B|" \o ToJson([cells |-> CellsM, hid |-> HidM]))
====
