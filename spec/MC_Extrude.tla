---- MODULE MC_Extrude ----
(* The extrusion builder on a small square with quarter and half turns: all histories of adds up to MaxItems, with defaults. *)
EXTENDS Extrude, Json
CONSTANTS MaxItems
VARIABLES def, hist, ifs
Sq == << <<0, 0, 0>>, <<2 * K, 0, 0>>, <<0, K, 0>>, <<2 * K, K, 0>> >>
Vecs == { << <<0, 0, K>>, <<0, 0, 1>>, 1>>, << <<K, 2 * K, 2 * K>>, <<1, 2, 2>>, 3>>, << <<-K, 0, 0>>, <<-1, 0, 0>>, 1>> }
Scs == {NoScale, 0, 2, 8}
Angs == {NoAngle, 0, 180, 360}
Init == def \in [sc : {NoScale, 8}, ang : {NoAngle, 180}] /\ hist = <<>> /\ ifs = <<Sq>>
Add == Len(hist) < MaxItems /\ \E v \in Vecs, q \in Scs, h \in Angs :
   LET e == [vec |-> v[1], dir |-> v[2], n |-> v[3], sc |-> q, ang |-> h] IN
   hist' = Append(hist, e) /\ ifs' = Append(ifs, Apply(ifs[Len(ifs)], Effective(def, e))) /\ UNCHANGED def
Next == Add
D2(p, q) == LET d == [c \in 1..3 |-> RoundDiv(p[c] - q[c], 100)] IN d[1] * d[1] + d[2] * d[2] + d[3] * d[3]
Eff(i) == Effective(def, hist[i])
(* translation and rotation keep all distances, scaling multiplies them: the interfaces are similar to the base *)
Similar == \A i \in DOMAIN hist : \A u, v \in 1..4 :
   LET q == IF Eff(i).sc = NoScale THEN 4 ELSE Eff(i).sc  a == D2(ifs[i][u], ifs[i][v])  b == D2(ifs[i + 1][u], ifs[i + 1][v]) IN
   Near(16 * b, a * q * q, a \div 4 + 4000)
(* without rotation, the center moves by the vector *)
CenterMoves == \A i \in DOMAIN hist : Eff(i).ang = NoAngle => NearP(Center2(ifs[i + 1]), AddP(Center2(ifs[i]), AddP(hist[i].vec, hist[i].vec)), 8)
(* a half turn about the normal of a planar rectangle maps it to itself *)
HalfTurn == \A i \in DOMAIN hist : (Eff(i).ang = 360 /\ hist[i].vec = <<0, 0, K>> /\ i = 1 /\ Eff(i).sc = NoScale) => NearP(ifs[2][1], AddP(ifs[1][4], hist[1].vec), 2)
(* the displacement along the axis of rotation is the vector itself *)
OnAxis == \A i \in DOMAIN hist : Eff(i).sc = NoScale => \A u \in 1..4 :
   Near(Dot(hist[i].dir, SubP(ifs[i + 1][u], ifs[i][u])), Dot(hist[i].dir, hist[i].vec), 80)
Emit == hist # <<>> => PrintT("B|" \o ToJson([def |-> def, hist |-> hist]))
====
