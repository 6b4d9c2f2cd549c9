---- MODULE Trace_Voronoi ----
(* begin: a builder over a background mesh; add, circle, polyline: items; gen: a generated mesh.
   State: the world, the items, and the constrained shapes among them.                            *)
EXTENDS TraceBase, Voronoi
Norm(c) == SelectSeq([i \in DOMAIN c |-> <<c[i], c[Nxp(i, Len(c))]>>], LAMBDA x : x[1] # x[2])
Shape(c) == LET n == Norm(c) IN [i \in DOMAIN n |-> n[i][1]]
Corners(e) == [c \in DOMAIN e.cells |-> Shape([k \in DOMAIN e.cells[c] |-> e.pts[e.cells[c][k]]])]
NearQ(p, q, t) == Near(p[1], q[1], t) /\ Near(p[2], q[2], t)
L1(p, q) == Abs(p[1] - q[1]) + Abs(p[2] - q[2])
(* faults of the tiling by cells given as corners *)
TileFaults(w, C0) ==
  LET C == [c \in DOMAIN C0 |-> Ccw(C0[c])]  rim == RimOf(w.shell, w.holes)  free == FreeEdges(C) IN
  Bad({<<"C12.positive", \A c \in DOMAIN C : Sh2(C[c]) > 0>>,
       <<"C12.edge_shared", OneLeft(C)>>,
       <<"C12.edge_on_rim", \A e \in free : \E i \in DOMAIN rim : OnSeg(rim[i], e, 3)>>,
       <<"C12.rim_covered", Covered(rim, free, 3)>>,
       <<"C12.area", Near(Total2(C), RegionArea2(w.shell, w.holes), 6 * Perimeter(rim))>>})
(* every vertex of cell c is no farther from its generator than from the others *)
Nearest(C, gen, skip) == \A c \in DOMAIN C : (c \in skip) \/ \A k \in DOMAIN C[c] : LET v == C[c][k]  own == Dist2(v, gen[c]) IN
    \A j \in DOMAIN gen : j = c \/ own <= Dist2(v, gen[j]) + 3 * (L1(gen[c], gen[j]) + L1(v, gen[c]))
(* the cells named x cover exactly the loop *)
Covers(C, names, x, loop) == LET S == {c \in DOMAIN C : names[c] = x} IN
   /\ \A c \in S : \A k \in DOMAIN C[c] : Within(loop, C[c][k]) \/ \E s \in Segs(loop) : NearSeg(s, C[c][k], 4)
   /\ Near(FoldSet(LAMBDA c, a : a + Abs(Sh2(C[c])), 0, S), Abs(Sh2(loop)), 8 * Perimeter(Legs(loop)))
FailGen(e, s) ==
  LET w == s.w  gens == Generators(w, s.items)  act == Active(gens)  C == Corners(e)
      vague == Vague(w, s.items, gens)
      good == {x \in DOMAIN s.shapes : ~vague /\ Shielded(w, s.items, gens, s.shapes[x].it, s.shapes[x].ring, s.shapes[x].rim, s.shapes[x].marks)}
      plain == {x \in DOMAIN s.shapes : s.shapes[x].plain}
      hidden == {s.shapes[x].it : x \in plain}                        \* their generators share one cell
      fused == {c \in DOMAIN C : \E x \in plain : e.names[c] = s.shapes[x].name}
      want == SelectSeq(act, LAMBDA g : g.it \notin hidden)
      twins == \E x, y \in DOMAIN act : x < y /\ NearQ(act[x].p, act[y].p, 4)
      line == \A x \in DOMAIN act : Abs(Sh2(<<act[1].p, act[Len(act)].p, act[x].p>>)) <= 8 * L1(act[1].p, act[Len(act)].p)
  IN
  IF e.exc # "" THEN (IF ~twins /\ ~line /\ plain \subseteq good THEN {"C12.raised", "C13.raised"} ELSE {})      \* pieces of a circle need not have one contour
  ELSE
  (IF vague \/ ~(plain \subseteq good) THEN {} ELSE
     Bad({<<"C13.generators", /\ Len(want) = Len(e.gen) - Cardinality(fused)
                              /\ \A x \in DOMAIN want : \E c \in DOMAIN e.gen \ fused : NearQ(want[x].p, e.gen[c], 3)>>,
          <<"C13.groups", \A x \in DOMAIN want : \A c \in DOMAIN e.gen \ fused : NearQ(want[x].p, e.gen[c], 3) => e.names[c] = want[x].g>>,
          <<"C13.fused", \A x \in plain : Cardinality({c \in DOMAIN C : e.names[c] = s.shapes[x].name}) = 1>>}))
  \union Bad({<<"C13.shape", ~(plain \subseteq good) \/ \A x \in good : ~e.simple \/ Covers(C, e.names, s.shapes[x].name, s.shapes[x].rim)>>,
              <<"C12.orientation", \A c \in DOMAIN C \ fused : (IF e.ccw THEN Sh2(C[c]) ELSE -Sh2(C[c])) > 0>>,
              <<"C12.flat", e.flat>>})
  \union (IF twins \/ ~e.simple \/ ~(plain \subseteq good) THEN {} ELSE Bad({<<"C12.nearest", Nearest(C, e.gen, fused)>>}) \union TileFaults(w, C))
NameOf(g) == IF g.k = "name" THEN g.v ELSE ""
Fail(e, s) == CASE e.ev = "gen" -> FailGen(e, s)
                [] e.ev = "begin" -> Bad({<<"C13.raised", e.exc = "">>})
                [] e.ev = "circle" -> IF e.cr < e.r THEN Bad({<<"C13.radius_refused", e.exc = "ValueError">>}) ELSE Bad({<<"C13.raised", e.exc = "">>})
                [] OTHER -> Bad({<<"C13.raised", e.exc = "">>})
Special(s, its, e, rim, marks, plain, closed) ==
  [s EXCEPT !.items = @ \o its,
            !.shapes = IF Len(its) = 2 /\ closed /\ NameOf(e.group) # "" THEN Append(@, [it |-> Len(s.items) + 1, ring |-> Len(s.items) + 2, rim |-> rim, marks |-> marks, name |-> NameOf(e.group), plain |-> plain]) ELSE @]
Succ(e, s) ==
  CASE e.ev = "begin" -> [w |-> [shell |-> e.shell, holes |-> e.holes, bg |-> e.bg, names |-> e.names, dflt |-> e.dflt, ignore |-> e.ignore], items |-> <<>>, shapes |-> <<>>]
    [] e.exc # "" -> s
    [] e.ev = "add" -> [s EXCEPT !.items = Append(@, [cells |-> e.cells, prio |-> e.prio, group |-> e.group, names |-> e.names])]
    [] e.ev = "circle" -> Special(s, CircleItems(e), e, CircleRim(e), {CircleRim(e)[k] : k \in 1..e.n}, e.plain, TRUE)
    [] e.ev = "polyline" -> Special(s, PolylineItems(e), e, StripRim(e), StripMarks(e), FALSE, e.c0 > 0 /\ e.c1 > 0)
    [] e.ev = "bent" -> [s EXCEPT !.items = @ \o PathItems(e)]
    [] OTHER -> s
Init == l = 1 /\ st = [w |-> 0, items |-> <<>>, shapes |-> <<>>]
Next == Step(Fail, Succ)
====
