---- MODULE Trace_Lines ----
(* split: a mesh and the list of meshes it was split into; merge: a list of meshes and the merged one. *)
EXTENDS TraceBase, Lines
Ok(m) == \A i \in DOMAIN m.lines : \A k \in DOMAIN m.lines[i] : m.lines[i][k] \in DOMAIN m.pts
FailSplit(e) ==
  LET w == Split(e.m, e.as) IN
  IF Len(e.res) # Len(w) THEN {"C19.count"} ELSE
  UNION {LET r == e.res[i] IN
     IF Keys(r.pd) # Keys(e.m.pd) \/ Keys(r.cd) # Keys(e.m.cd) THEN {"C19.keys"} ELSE
     LET g == All(r, Keys(r.pd), Keys(r.cd)) IN
     IF Len(g) # Len(w[i]) THEN {"C19.form"} ELSE
     Bad({<<"C19.points", \A k \in DOMAIN g : g[k].p = w[i][k].p>>,
          <<"C19.pointdata", \A k \in DOMAIN g : g[k].d = w[i][k].d>>,
          <<"C19.celldata", \A k \in DOMAIN g : g[k].c = w[i][k].c>>,
          <<"C19.othercells", r.other = 0>>}) : i \in DOMAIN w}
FailMerge(e) ==
  LET w == Merged(e.ms, e.as)  P == CommonP(e.ms)  C == CommonC(e.ms)  r == e.res IN
  IF Keys(r.pd) # P \/ Keys(r.cd) # C THEN {"C19.keys"} ELSE
  LET g == All(r, P, C) IN
  IF Len(g) # Len(w) THEN {"C19.count"} ELSE
  Bad({<<"C19.points", \A k \in DOMAIN g : g[k].p = w[k].p>>,
       <<"C19.celldata", \A k \in DOMAIN g : g[k].c = w[k].c>>,
       <<"C19.pointdata", \A j \in DOMAIN r.pts : [x \in P |-> r.pd[x][j]] \in DataAt(e.ms, r.pts[j], P)>>,
       <<"C19.shared", \A j, k \in DOMAIN r.pts : r.pts[j] = r.pts[k] => j = k>>,
       <<"C19.othercells", r.other = 0>>})
Fail(e, s) == IF e.exc # "" THEN {"C19.raised"} ELSE IF e.ev = "split" THEN FailSplit(e) ELSE FailMerge(e)
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
