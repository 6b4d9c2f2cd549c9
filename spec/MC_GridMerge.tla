---- MODULE MC_GridMerge ----
(* Cutting a small grid into pieces along each axis and merging them again. *)
EXTENDS GridMerge, Json
VARIABLES args, out
Shapes == {d \in (1..3) \X (1..4) \X (1..3) : NDim(d) >= 2}
Cuts(n) == {S \in SUBSET (2..n - 1) : Cardinality(S) <= 2}
Whole(d) == [dims |-> d, pts |-> [k \in 1..Size(d) |-> Unflat(d, k)], data |-> << [name |-> "q", v |-> [k \in 1..Size(CDims(d)) |-> <<k>>]] >>]
Piece(d, ax, lo, hi) ==
  LET e == [d EXCEPT ![ax] = hi - lo + 1]  w == Whole(d) IN
  [dims |-> e, pts |-> [k \in 1..Size(e) |-> LET x == Unflat(e, k) IN [x EXCEPT ![ax] = @ + lo - 1]],
   data |-> << [name |-> "q", v |-> [k \in 1..Size(CDims(e)) |-> LET x == Unflat(CDims(e), k) IN <<Flat3(CDims(d), [x EXCEPT ![ax] = @ + lo - 1])>>]] >>]
Pieces(d, ax, S) == LET b == SetToSortSeq(S \cup {1, d[ax]}, LAMBDA a, c : a < c) IN [i \in 1..Len(b) - 1 |-> Piece(d, ax, b[i], b[i + 1])]
Init == out = <<>> /\ \E d \in Shapes, ax \in 1..3 : \E S \in Cuts(d[ax]) : S # {} /\ args = [d |-> d, ax |-> ax, cuts |-> S, G |-> Pieces(d, ax, S)]
Do == out = <<>> /\ out' = GridMerge(args.G, args.ax) /\ UNCHANGED args
Next == Do
Ok == out # <<>>
Accepted == ~GridRefused(args.G, args.ax) /\ GridRefused(args.G, 0) /\ (Len(args.G) >= 2 => GridRefused(Rev(args.G), args.ax))
RoundTrip == Ok => out.dims = args.d /\ out.pts = Whole(args.d).pts /\ \A k \in DOMAIN out.src : DataOf(args.G[out.src[k][1]], "q")[out.src[k][2]] = <<k>>
EachOnce == Ok => \A i \in DOMAIN args.G : {out.src[k][2] : k \in {k \in DOMAIN out.src : out.src[k][1] = i}} = 1..Size(CDims(args.G[i].dims))
CornersKept == Ok => \A k \in DOMAIN out.src : LET g == args.G[out.src[k][1]] IN
   {out.pts[v] : v \in CellCorners(out.dims, Unflat(CDims(out.dims), k))} = {g.pts[v] : v \in CellCorners(g.dims, Unflat(CDims(g.dims), out.src[k][2]))}
Emit == Ok => PrintT("B|" \o ToJson([d |-> args.d, ax |-> args.ax, cuts |-> SetToSortSeq(args.cuts, LAMBDA a, c : a < c)]))
====
