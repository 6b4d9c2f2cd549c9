---- MODULE Voronoi ----
(* Generators and cells of a two-dimensional Voronoi mesh.  Plane coordinates at V = 1000 per unit.
   World: [shell, holes, gens, dflt, ignore]; a generator is [p, g, pr, on, it] (position, group, priority, active, item);
   an item is [cells, prio, group, names] with cells sequences of corners.                                                    *)
EXTENDS Tiling, Groups, Trig
V == 1000
Mean(c) == [k \in {1, 2} |-> LET s == Sum([i \in DOMAIN c |-> c[i][k]]) IN IF s < 0 THEN -RoundDiv(-s, Len(c)) ELSE RoundDiv(s, Len(c))]
Dist2(a, b) == (a[1] - b[1]) * (a[1] - b[1]) + (a[2] - b[2]) * (a[2] - b[2])
InDomain(w, p) == Within(w.shell, p) /\ \A h \in DOMAIN w.holes : ~Within(w.holes[h], p)
OnDomainRim(w, p) == Border(w.shell, p) \/ \E h \in DOMAIN w.holes : Border(w.holes[h], p)
InCell(c, p) == Len(c) > 2 /\ Within(c, p)
(* order in which items are handled: by absolute priority, then as added *)
Handled(items) == SetToSortSeq(DOMAIN items, LAMBDA a, b : Abs(items[a].prio) < Abs(items[b].prio) \/ (Abs(items[a].prio) = Abs(items[b].prio) /\ a < b))
Beats(item, pr) == IF item.prio >= 0 THEN pr <= item.prio ELSE pr < -item.prio
Handle(w, gens, item, n) ==
  LET C == item.cells
      kept == SelectSeq([i \in DOMAIN C |-> i], LAMBDA i : InDomain(w, Mean(C[i])))
      old == [x \in DOMAIN gens |-> IF Beats(item, gens[x].pr) /\ \E k \in DOMAIN kept : InCell(C[kept[k]], gens[x].p) THEN [gens[x] EXCEPT !.on = FALSE] ELSE gens[x]]
      new == [k \in DOMAIN kept |-> [p |-> Mean(C[kept[k]]), g |-> GroupOf(kept[k], item.names, item.group, w.ignore, w.dflt), pr |-> Abs(item.prio), on |-> TRUE, it |-> n]] IN
  old \o new
Background(w) == [i \in DOMAIN w.bg |-> [p |-> w.bg[i], g |-> GroupOf(i, w.names, [k |-> "none"], w.ignore, w.dflt), pr |-> -1, on |-> TRUE, it |-> 0]]
Generators(w, items) == FoldLeft(LAMBDA gens, n : Handle(w, gens, items[n], n), Background(w), Handled(items))
Active(gens) == SelectSeq(gens, LAMBDA x : x.on)
(* decisions that rounding may turn either way *)
Vague(w, items, gens) ==
  \/ \E n \in DOMAIN items : \E c \in DOMAIN items[n].cells : \/ OnDomainRim(w, Mean(items[n].cells[c]))
        \/ (Len(items[n].cells[c]) > 2 /\ \E x \in DOMAIN gens : gens[x].it # n /\ Border(items[n].cells[c], gens[x].p))
  \/ \E x, y \in DOMAIN gens : x < y /\ Near(gens[x].p[1], gens[y].p[1], 4) /\ Near(gens[x].p[2], gens[y].p[2], 4)
(* circle of radius r around c with n sectors (720 divisible by n, half degrees), constraint ring of width dr inside and outside *)
Spoke(c, r, n, k) == <<c[1] + Times(r, Cos(k * (720 \div n))), c[2] + Times(r, Sin(k * (720 \div n)))>>
RingCells(c, r1, r2, n) == [k \in 1..n |-> <<Spoke(c, r1, n, k - 1), Spoke(c, r2, n, k - 1), Spoke(c, r2, n, k), Spoke(c, r1, n, k)>>]
DiscCells(c, r, n) == [k \in 1..n |-> <<c, Spoke(c, r, n, k - 1), Spoke(c, r, n, k)>>]
NoGroup == [k |-> "none"]
CircleItems(e) == LET dr == e.cr - e.r IN
  IF dr = 0 THEN <<[cells |-> DiscCells(e.c, e.r, e.n), prio |-> e.prio, group |-> e.group, names |-> <<>>]>>
  ELSE <<[cells |-> DiscCells(e.c, e.r - dr, e.n) \o RingCells(e.c, e.r - dr, e.r, e.n), prio |-> e.prio, group |-> e.group, names |-> <<>>],
         [cells |-> RingCells(e.c, e.r, e.r + dr, e.n), prio |-> 0, group |-> NoGroup, names |-> <<>>]>>
CircleRim(e) == [k \in 1..e.n |-> Spoke(e.c, e.r, e.n, k)]
(* straight polyline through o in direction d (|d| = dl), corners at distances s; stations along, rows across *)
Stations(e) == LET n == Len(e.s)
                   base == IF e.pref = "point" THEN e.s ELSE <<e.s[1] - e.pad>> \o [i \in 1..n - 1 |-> (e.s[i] + e.s[i + 1]) \div 2] \o <<e.s[n] + e.pad>>
                   m == Len(base)
                   pre == [i \in 1..e.c0 |-> base[1] - (e.c0 + 1 - i) * (base[2] - base[1])]
                   post == [i \in 1..e.c1 |-> base[m] + i * (base[m] - base[m - 1])] IN pre \o base \o post
Rows(e) == LET n == Len(e.perc)  p == <<2 * e.perc[1] - e.perc[2]>> \o e.perc \o <<2 * e.perc[n] - e.perc[n - 1]>> IN
   [j \in DOMAIN p |-> (e.width * (p[j] - 500)) \div 1000]
At(e, s, t) == <<e.o[1] + (e.d[1] * s - e.d[2] * t) \div e.dl, e.o[2] + (e.d[2] * s + e.d[1] * t) \div e.dl>>
BandCells(e, I, J) == LET S == Stations(e)  R == Rows(e) IN
   FlattenSeq([i \in 1..Len(I) |-> [j \in 1..Len(J) |-> <<At(e, S[I[i]], R[J[j]]), At(e, S[I[i] + 1], R[J[j]]), At(e, S[I[i] + 1], R[J[j] + 1]), At(e, S[I[i]], R[J[j] + 1])>>]])
PolylineItems(e) ==
  LET ns == Len(Stations(e)) - 1  nr == Len(Rows(e)) - 1
      mid == [i \in 1..ns - e.c0 - e.c1 |-> e.c0 + i]  in == [j \in 1..nr - 2 |-> j + 1]
      head == [i \in 1..e.c0 |-> i]  tail == [i \in 1..e.c1 |-> ns - e.c1 + i]  all == [j \in 1..nr |-> j] IN
  <<[cells |-> BandCells(e, mid, in), prio |-> e.prio, group |-> e.group, names |-> <<>>],
    [cells |-> BandCells(e, head, all) \o BandCells(e, tail, all) \o BandCells(e, mid, <<1, nr>>), prio |-> 0, group |-> NoGroup, names |-> <<>>]>>
(* polyline with bends through e.path: each station has a normal, the direction across the line joining its neighbours *)
RECURSIVE Root(_, _)
Root(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Root(n, y)
Less(a, b) == <<a[1] - b[1], a[2] - b[2]>>
Unit(v) == LET n == 16 * (v[1] * v[1] + v[2] * v[2])  r == Root(n, n) IN <<(v[1] * 40000) \div r, (v[2] * 40000) \div r>>        \* scale 10^4
Move(p, u, t) == <<p[1] + RoundDiv(u[1] * t, 10000), p[2] + RoundDiv(u[2] * t, 10000)>>
PathBase(e) == LET P == e.path  n == Len(P) IN
   IF e.pref = "point" THEN P
   ELSE <<Move(P[1], Unit(Less(P[1], P[2])), e.pad)>> \o [i \in 1..n - 1 |-> <<(P[i][1] + P[i + 1][1]) \div 2, (P[i][2] + P[i + 1][2]) \div 2>>] \o <<Move(P[n], Unit(Less(P[n], P[n - 1])), e.pad)>>
PathStations(e) == LET b == PathBase(e)  m == Len(b)  d0 == Less(b[2], b[1])  d1 == Less(b[m], b[m - 1]) IN
   [i \in 1..e.c0 |-> LET k == e.c0 + 1 - i IN <<b[1][1] - k * d0[1], b[1][2] - k * d0[2]>>] \o b \o [i \in 1..e.c1 |-> <<b[m][1] + i * d1[1], b[m][2] + i * d1[2]>>]
PathNormals(S) == [i \in DOMAIN S |-> LET n == Len(S)  d == Less(S[IF i = n THEN i ELSE i + 1], S[IF i = 1 THEN i ELSE i - 1]) IN Unit(<<-d[2], d[1]>>)]
PathItems(e) ==
  LET S == PathStations(e)  N == PathNormals(S)  R == Rows(e)  ns == Len(S) - 1  nr == Len(R) - 1
      at(i, j) == Move(S[i], N[i], R[j])
      quad(i, j) == <<at(i, j), at(i + 1, j), at(i + 1, j + 1), at(i, j + 1)>>
      all == FlattenSeq([i \in 1..ns |-> [j \in 1..nr |-> <<i, j>>]])
      inner == SelectSeq(all, LAMBDA x : x[1] > e.c0 /\ x[1] <= ns - e.c1 /\ x[2] > 1 /\ x[2] < nr)
      outer == SelectSeq(all, LAMBDA x : ~(x[1] > e.c0 /\ x[1] <= ns - e.c1 /\ x[2] > 1 /\ x[2] < nr)) IN
  <<[cells |-> [k \in DOMAIN inner |-> quad(inner[k][1], inner[k][2])], prio |-> e.prio, group |-> e.group, names |-> <<>>],
    [cells |-> [k \in DOMAIN outer |-> quad(outer[k][1], outer[k][2])], prio |-> 0, group |-> NoGroup, names |-> <<>>]>>
(* strip of the polyline, and the points of its rim where three cells meet *)
StripRim(e) == LET S == Stations(e)  R == Rows(e)  a == S[e.c0 + 1]  b == S[Len(S) - e.c1]  t == R[2]  u == R[Len(R) - 1] IN
   <<At(e, a, t), At(e, b, t), At(e, b, u), At(e, a, u)>>
StripMarks(e) == LET S == Stations(e)  R == Rows(e)  a == e.c0 + 1  b == Len(S) - e.c1 IN
   {At(e, S[i], r) : i \in {a, b}, r \in {R[2], R[Len(R) - 1]}} \union
   {At(e, (S[i] + 2 * S[i + 1] + S[i + 2]) \div 4, r) : i \in a..b - 2, r \in {R[2], R[Len(R) - 1]}}
(* item n and its ring are complete, their shape lies in the domain, and no other active generator is closer to a mark of the rim than those of item n *)
Shielded(w, items, gens, n, ring, rim, marks) ==
  /\ \A i \in {n, ring} : Cardinality({x \in DOMAIN gens : gens[x].it = i /\ gens[x].on}) = Len(items[i].cells)
  /\ \A v \in marks : InDomain(w, v) /\ ~OnDomainRim(w, v)
  /\ \A i \in DOMAIN w.shell : ~Within(rim, w.shell[i])
  /\ \A h \in DOMAIN w.holes : \A i \in DOMAIN w.holes[h] : ~Within(rim, w.holes[h][i])
  /\ \A v \in marks : LET own == Min({Dist2(v, gens[x].p) : x \in {x \in DOMAIN gens : gens[x].it = n}}) IN
        \A x \in DOMAIN gens : (gens[x].on /\ gens[x].it \notin {n, ring}) => Dist2(v, gens[x].p) > own + own \div 20
====
