---- MODULE MC_Polar ----
EXTENDS Polar, Json
VARIABLES args, out
Res == {[k |-> "none"], [k |-> "int", n |-> 2], [k |-> "int", n |-> 3]}
C0 == {<<0, 0, 0>>, <<10000, -20000, 5000>>}
Grids == {[kind |-> "polar", ri |-> r[1], ro |-> r[2], t0 |-> t[1], t1 |-> t[2], tres |-> tr, tm |-> m, rres |-> rr, rm |-> m2, solid |-> s, h |-> 20000, zres |-> tr, zm |-> m, center |-> c] :
            r \in {<<0, 10000>>, <<5000, 20000>>, <<10000, 10000>>, <<-10000, 10000>>}, t \in {<<0, 180>>, <<0, 720>>, <<90, 45>>}, tr \in Res, rr \in Res, m \in {"", "log"}, m2 \in {"log_r"}, s \in BOOLEAN, c \in C0}
Secs == {[kind |-> "sector", r |-> r, t0 |-> t[1], t1 |-> t[2], res |-> tr, m |-> m, center |-> c] :
            r \in {-10000, 0, 10000}, t \in {<<0, 180>>, <<0, 720>>}, tr \in Res, m \in {"", "log", "log_r"}, c \in C0}
Mix == {[kind |-> "mixed", inside |-> s, r |-> r, dx |-> d, dy |-> d2, xres |-> xr, xm |-> m, yres |-> yr, ym |-> m2, rres |-> yr, rm |-> m, center |-> c] :
            s \in {"rect", "sector"}, r \in {-10000, 0, 5000, 10000, 30000}, d \in {10000}, d2 \in {10000, 20000}, xr \in Res, yr \in Res, m \in {"", "log"}, m2 \in {"log_r"}, c \in C0}
Init == args \in Grids \cup Secs \cup Mix /\ out = <<>>
Make == out = <<>> /\ UNCHANGED args /\ out' =
   CASE args.kind = "polar" -> IF PolarRefused(args) THEN [ref |-> TRUE] ELSE [ref |-> FALSE, g |-> PolarGrid(args)]
     [] args.kind = "sector" -> IF SectorRefused(args) THEN [ref |-> TRUE] ELSE [ref |-> FALSE, cells |-> SectorCells(args)]
     [] args.kind = "mixed" -> IF MixedRefused(args) THEN [ref |-> TRUE] ELSE [ref |-> FALSE, cells |-> MixedCells(args)]
Next == Make
Ok == out # <<>> /\ ~out.ref
Sq(x) == (x \div 100) * (x \div 100)
(* every polar point lies between its radii, and on them at the ends *)
R2(p, c) == Sq(p[1] - c[1]) + Sq(p[2] - c[2])
OnRadii == Ok /\ args.kind = "polar" => LET g == out.g IN
   /\ Len(g.pts) = g.dims[1] * g.dims[2] * g.dims[3]
   /\ \A i \in 1..g.dims[1] : Near(R2(g.pts[i], args.center), Sq(args.ri), 800) /\ Near(R2(g.pts[i + g.dims[1] * (g.dims[2] - 1)], args.center), Sq(args.ro), 1600)
   /\ args.solid => g.pts[1][3] + g.pts[Len(g.pts)][3] = 2 * args.center[3]
(* full circles close *)
Closes == Ok /\ args.kind = "polar" /\ args.t0 = 0 /\ args.t1 = 720 => NearP(out.g.pts[1], out.g.pts[out.g.dims[1]], 2)
SectorCloses == Ok /\ args.kind = "sector" => Len(out.cells) = NSub(args.res) /\ (args.t1 = 720 => NearP(out.cells[1][2], out.cells[Len(out.cells)][3], 2))
(* the two strips meet on the diagonal only *)
Pt(c) == {c[i] : i \in 1..4}
Conforming == Ok /\ args.kind = "mixed" =>
   Cardinality(UNION {Pt(out.cells[i]) : i \in DOMAIN out.cells}) = MixedPoints(args)
Positive == Ok /\ args.kind = "mixed" => \A i \in DOMAIN out.cells : LET c == out.cells[i] IN \A u, v \in 1..4 : u # v => c[u] # c[v]
Emit == out # <<>> => PrintT("B|" \o ToJson(args))
====
