---- MODULE GridMerge ----
(* Merging structured grids along an axis, and general meshes.  A grid is [dims, pts, data |-> seq of [name, v]] with data
   rows (sequences of components) per cell.                                                                          *)
EXTENDS Volume
Names(g) == {g.data[i].name : i \in DOMAIN g.data}
DataOf(g, n) == g.data[CHOOSE i \in DOMAIN g.data : g.data[i].name = n].v
PtOf(g, x) == g.pts[Flat3(g.dims, x)]
(* same shape across the axis and same points on the common interface *)
Matches(a, b, ax) == /\ \A c \in (1..3) \ {ax} : a.dims[c] = b.dims[c]
                     /\ \A k \in 1..Size([b.dims EXCEPT ![ax] = 1]) :
                          LET x == Unflat([b.dims EXCEPT ![ax] = 1], k) IN PtOf(a, [x EXCEPT ![ax] = a.dims[ax]]) = PtOf(b, x)
GridRefused(G, ax) == Len(G) >= 2 /\ (ax = 0 \/ \E i \in 1..Len(G) - 1 : ~Matches(G[i], G[i + 1], ax))
(* grid and position inside it of position v along the axis, in a row of pieces with the given numbers of intervals *)
RECURSIVE Locate(_, _, _)
Locate(n, v, i) == IF v <= n[i] \/ i = Len(n) THEN <<i, v>> ELSE Locate(n, v - n[i], i + 1)
GridMerge(G, ax) ==
  LET iv == [i \in DOMAIN G |-> G[i].dims[ax] - 1]
      d == [G[1].dims EXCEPT ![ax] = Sum(iv) + 1]
      cd == CDims(d)
      pt(k) == LET x == Unflat(d, k)  w == IF x[ax] = 1 THEN <<1, 0>> ELSE Locate(iv, x[ax] - 1, 1) IN PtOf(G[w[1]], [x EXCEPT ![ax] = w[2] + 1])
      src(k) == LET x == Unflat(cd, k)  w == Locate(iv, x[ax], 1) IN <<w[1], Flat3(CDims(G[w[1]].dims), [x EXCEPT ![ax] = w[2]])>>
      common == {n \in Names(G[1]) : \A i \in DOMAIN G : n \in Names(G[i])} IN
  [dims |-> d, pts |-> [k \in 1..Size(d) |-> pt(k)], src |-> [k \in 1..Size(cd) |-> src(k)], common |-> common]
(* general meshes: [pts, cells |-> seq of [ids, type], data] *)
BagOf(s) == [x \in {s[i] : i \in DOMAIN s} |-> Cardinality({i \in DOMAIN s : s[i] = x})]
CellIn(m, k, N) == <<m.cells[k].type, [i \in DOMAIN m.cells[k].ids |-> m.pts[m.cells[k].ids[i]]], [n \in N |-> DataOf(m, n)[k]]>>
====
