---- MODULE MC_Volume ----
(* Small surfaces of every cell type and orientation: the lifted cells are closed prisms over their base cell, levels and
   columns are a bijection with cells, and hidden cells are exactly the flat ones.                                       *)
EXTENDS Volume, Json
VARIABLES args, out
P(x, y, z) == <<x * K, y * K, z * K>>
Sq == <<P(0, 0, 0), P(1, 0, 0), P(2, 0, 0), P(0, 1, 0), P(1, 1, 0), P(2, 1, 0)>>
Perm(ax, p) == CASE ax = 3 -> p [] ax = 2 -> <<p[1], p[3], p[2]>> [] ax = 1 -> <<p[3], p[1], p[2]>>
SDims(ax) == CASE ax = 3 -> <<3, 2, 1>> [] ax = 2 -> <<3, 1, 2>> [] ax = 1 -> <<1, 3, 2>>
Struct(ax, h) == [kind |-> "struct", dims |-> SDims(ax), pts |-> [i \in 1..6 |-> Perm(ax, <<Sq[i][1], Sq[i][2], h[i] * K>>)]]
Cells == { <<<< <<1, 2, 5, 4>>, <<2, 3, 6, 5>> >>, <<QUAD, QUAD>> >>, <<<< <<1, 2, 4, 5>>, <<2, 3, 6>>, <<2, 6, 5>> >>, <<PIXEL, TRI, TRI>> >>,
           <<<< <<1, 2, 3, 6, 5, 4>> >>, <<POLY>> >>, <<<< <<4, 5, 2, 1>>, <<2, 5, 6, 3>> >>, <<POLY, QUAD>> >> }
Unst(c, h) == [kind |-> "unstr", cells |-> c[1], types |-> c[2], pts |-> [i \in 1..6 |-> <<Sq[i][1], Sq[i][2], h[i] * K>>]]
Heights == {h \in [1..6 -> {0, 2}] : h[1] = h[4] /\ h[3] = 2}
Ress == {[k |-> "int", n |-> 1], [k |-> "int", n |-> 3], [k |-> "list", v |-> <<0, 500000, 500000, PS>>]}
Z == [i \in 1..6 |-> 0]
Init == /\ out = <<>>
        /\ \/ \E ax \in 1..3, h \in Heights, r \in Ress, m \in {"", "log"} : args = [a |-> Struct(ax, Z), b |-> Struct(ax, h), res |-> r, m |-> m]
           \/ \E c \in Cells, h \in Heights, r \in Ress, m \in {"", "log"} : args = [a |-> Unst(c, Z), b |-> Unst(c, h), res |-> r, m |-> m]
        /\ ~(args.res.k = "list" /\ args.m # "")
Extrude == out = <<>> /\ UNCHANGED args /\
  out' = IF args.a.kind = "struct" THEN StructVolume(args.a, args.b, args.res, args.m) ELSE UnstrVolume(args.a, args.b, args.res, args.m)
Next == Extrude
Ok == out # <<>>
NB == IF args.a.kind = "struct" THEN 2 ELSE Len(args.a.cells)
OneCellPerColumnAndLevel == Ok => {<<out.csrc[k], out.clev[k]>> : k \in DOMAIN out.csrc} = (1..NB) \X (1..NSub(args.res)) /\ Len(out.csrc) = NB * NSub(args.res)
(* structured cells sit on their own column *)
OnColumn == Ok /\ args.a.kind = "struct" => \A k \in DOMAIN out.csrc :
   LET cd == CDims(out.dims)  bd == CDims(args.a.dims) IN
   {out.psrc[v] : v \in CellCorners(out.dims, Unflat(cd, k))} = CellCorners(args.a.dims, Unflat(bd, out.csrc[k]))
Prisms == Ok /\ args.a.kind = "unstr" => \A k \in DOMAIN out.csrc :
   /\ {out.psrc[v] : v \in Range(out.bot[k]) \cup Range(out.top[k])} = Range(args.a.cells[out.csrc[k]])
   /\ \A i \in DOMAIN out.bot[k] : out.pts[out.bot[k][i]][3] <= out.pts[out.top[k][i]][3]
   /\ LET G == PrismFaces(out.bot[k], out.top[k]) IN \A f \in DOMAIN G : \A x \in DirEdges(G[f]) :
         Cardinality({g \in DOMAIN G : x \in DirEdges(G[g]) \/ <<x[2], x[1]>> \in DirEdges(G[g])}) = 2
(* flat cells have no height, others have *)
FlatIsFlat == Ok => \A k \in DOMAIN out.csrc : out.flat[k] <=>
   LET V == IF args.a.kind = "struct" THEN CellCorners(out.dims, Unflat(CDims(out.dims), k)) ELSE Range(out.bot[k]) \cup Range(out.top[k])
       ax == IF args.a.kind = "struct" THEN Axis(args.a.dims) ELSE 3 IN
   \A u, v \in V : out.psrc[u] = out.psrc[v] => out.pts[u][ax] = out.pts[v][ax]
Emit == Ok => PrintT("B|" \o ToJson(args))
====
