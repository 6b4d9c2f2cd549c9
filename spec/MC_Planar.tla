---- MODULE MC_Planar ----
(* All small surfaces: the structured index of points and cells is consistent in every orientation, data follows the
   line, and collapse is exactly zero area.  Behaviours are emitted for replay in the real generator.               *)
EXTENDS Planar, Json
VARIABLES args, out
P(x, y) == <<x * K, y * K, 0>>
LinesA == {<<P(0, 0), P(1, 0)>>, <<P(0, 0), P(1, 0), P(3, 0)>>, <<P(0, 0), P(2, 0), P(2, 0), P(3, 0)>>}
Tops(a) == {[i \in DOMAIN a |-> <<a[i][1], y[i] * K, 0>>] : y \in [DOMAIN a -> {0, 1, 2}]}
Ress == {[k |-> "none"], [k |-> "int", n |-> 2], [k |-> "int", n |-> 3], [k |-> "list", v |-> <<0, 500000, 500000, PS>>]}
Arg == UNION {{[a |-> a, b |-> b, plane |-> pl, res |-> r, m |-> m] : b \in Tops(a), pl \in Planes, r \in Ress, m \in {"", "log"}} : a \in LinesA}
Init == args \in {x \in Arg : x.res.k # "list" \/ x.m = ""} /\ out = <<>>
Generate == out = <<>> /\ out' = Surface(args.a, args.b, args.plane, args.res, args.m) /\ UNCHANGED args
Next == Generate
Ok == out # <<>>
D(x) == out.dims[x]
\* flattened index of a structured coordinate
Flat(i, j, k) == i + D(1) * ((j - 1) + D(2) * (k - 1))
CDim(x) == Max2(1, D(x) - 1)
CFlat(i, j, k) == i + CDim(1) * ((j - 1) + CDim(2) * (k - 1))
Corners(i, j, k) == {Flat(x, y, z) : x \in {i, Min2(i + 1, D(1))}, y \in {j, Min2(j + 1, D(2))}, z \in {k, Min2(k + 1, D(3))}}
SizesAgree == Ok => Len(out.pts) = D(1) * D(2) * D(3) /\ Len(out.hid) = CDim(1) * CDim(2) * CDim(3)
CellsJoinTheirSegment == Ok => \A i \in 1..CDim(1), j \in 1..CDim(2), k \in 1..CDim(3) :
     {out.psrc[f] : f \in Corners(i, j, k)} = {out.csrc[CFlat(i, j, k)], out.csrc[CFlat(i, j, k)] + 1}
Cross(o, u, v) == (u[1] - o[1]) * (v[2] - o[2]) - (u[2] - o[2]) * (v[1] - o[1])
HiddenIsZeroArea == Ok => \A i \in 1..CDim(1), j \in 1..CDim(2), k \in 1..CDim(3) :
     out.hid[CFlat(i, j, k)] <=> \* all corners on one straight line
       \A u, v, w \in Corners(i, j, k) : Abs(Cross(out.pts[u], out.pts[v], out.pts[w])) <= 10 * K
EndsOnLines == Ok => \A f \in DOMAIN out.pts : \E q \in 1..Len(args.a) : out.psrc[f] = q /\ out.pts[f][1] = args.a[q][1]
Emit == Ok => PrintT("B|" \o ToJson(args))
====
