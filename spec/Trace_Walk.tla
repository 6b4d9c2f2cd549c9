---- MODULE Trace_Walk ----
(* cut: intersect_polyline; ray: ray_cast, both with the mesh and the line as lattice data and what was returned (points times 1000) *)
EXTENDS TraceBase, Walk
FailCut(e) ==
  LET H == [c \in DOMAIN e.cells |-> Half(e.cells[c], e.flat)]
      P == Pieces(H, e.v)
      W == Cut(P, Len(e.v), e.before, e.after)
      full == Cut(P, Len(e.v), FALSE, FALSE)
      w == [k \in DOMAIN full |-> Where(e.v, full[k])]
      short == \E k \in 1..Len(w) - 1 : NearP(w[k], w[k + 1], 6)
  IN IF ~(\A i \in 1..Len(e.v) - 1 : GenericSeg(H, e.v[i], e.v[i + 1])) \/ short THEN {}
     ELSE IF ~OneVisit(P) THEN (IF e.reentry THEN (IF e.exc = "" /\ e.ids = e.want THEN {} ELSE {"C23.reentry"}) ELSE {})
     ELSE IF Len(W) < 2 THEN {}
     ELSE IF e.exc # "" THEN {"C23.raised"}
     ELSE IF Len(e.pts) # Len(W) \/ Len(e.ids) # Len(W) - 1 \/ Len(e.lids) # Len(W) - 1 THEN {"C23.number"}
     ELSE Bad({<<"C23.points", \A k \in DOMAIN W : NearP(e.pts[k], Where(e.v, W[k]), 3)>>,
               <<"C23.cells", \A k \in 1..Len(W) - 1 : e.ids[k] = W[k + 1].c>>,
               <<"C23.lines", \A k \in 1..Len(W) - 1 : e.lids[k] = W[k + 1].line>>,
               <<"C23.chain", e.chain>>,
               <<"C23.data", e.data = <<>> \/ \A k \in 1..Len(W) - 1 : e.data[k] = e.ldata[IF Len(e.ldata) = 1 THEN 1 ELSE W[k + 1].line + 1]>>,
               <<"C23.nodata", e.pass = (e.data # <<>>)>>})
Crossings(S) == {x.lo : x \in {y \in S : ~EqF(y.lo, F0)}} \union {x.hi : x \in {y \in S : ~EqF(y.hi, F1)}}
Canon(T) == {CHOOSE x \in T : EqF(x, t) /\ \A y \in T : EqF(y, t) => x[2] <= y[2] : t \in T}
FailRay(e) ==
  LET H == [c \in DOMAIN e.cells |-> Half(e.cells[c], e.flat)]
      S == Spans(H, e.a, e.b)
      All == Canon(Crossings(S))
      D == SubP(e.b, e.a)
      Wall(t) == LET x == CHOOSE y \in S : EqF(y.lo, t) \/ EqF(y.hi, t) IN CHOOSE h \in H[x.c] : DotN(h, D) # 0 /\ EqF(Hit(h, e.a, e.b), t)
      (* four times the squared cosine between the ray and the wall it crosses, compared with that of the largest angle *)
      Steep(t) == LET h == Wall(t) IN 4 * DotN(h, D) * DotN(h, D) - (CASE e.ang = 30 -> 3 [] e.ang = 45 -> 2 [] OTHER -> 1) * (h[1] * h[1] + h[2] * h[2] + h[3] * h[3]) * (D[1] * D[1] + D[2] * D[2] + D[3] * D[3])
      narrow == e.ang # 0 /\ ~e.flat
      T == IF narrow THEN {t \in All : Steep(t) > 0} ELSE All
      Own(t) == {x.c - 1 : x \in {y \in S : EqF(y.lo, t) \/ EqF(y.hi, t)}}
      pt(t) == Where(<<e.a, e.b>>, [s |-> 1, t |-> t])
  IN IF ~GenericSeg(H, e.a, e.b) \/ (narrow /\ \E t \in All : Steep(t) = 0) \/ (\E t, u \in All : t # u /\ NearP(pt(t), pt(u), 6)) THEN {}
     ELSE IF e.exc # "" THEN {"C23.ray_raised"}
     ELSE IF e.none # (T = {}) THEN {"C23.ray_none"}
     ELSE IF Len(e.faces) # Cardinality(T) THEN {"C23.ray_number"}
     ELSE Bad({<<"C23.ray_point", \A t \in T : \E k \in DOMAIN e.faces : NearP(e.faces[k].p, pt(t), 3)>>,
               <<"C23.ray_owner", \A t \in T : \A k \in DOMAIN e.faces : NearP(e.faces[k].p, pt(t), 3) => {x \in ToSet(e.faces[k].own) : x # -1} = Own(t)>>,
               <<"C23.ray_face", \A k \in DOMAIN e.faces : Len(e.faces[k].v) >= (IF e.flat THEN 2 ELSE 3) /\ \A i \in DOMAIN e.faces[k].v :
                     \A c \in {x \in ToSet(e.faces[k].own) : x # -1} : InClosed(H[c + 1], e.faces[k].v[i])>>})
Fail(e, s) == IF e.ev = "cut" THEN FailCut(e) ELSE FailRay(e)
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
