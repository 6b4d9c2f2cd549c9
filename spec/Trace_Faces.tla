---- MODULE Trace_Faces ----
(* events: geom (extracted cell geometry), neigh (neighbourhood), conn (connectivity mesh) of a recorded mesh *)
EXTENDS TraceBase, Faces
Cycle(f, g) == Len(f) = Len(g) /\ \E k \in 0..Len(f) - 1 : Rot(g, k) = f \/ Rot(Rev(g), k) = f
Owners(o) == {o[i] : i \in DOMAIN o} \ {-1}
FailGeom(e) ==
  IF e.exc # "" THEN {"C14.raised"} ELSE
  LET tab == FaceTable(e.m, e.rem)  d == MeshDim(e.m)
      sets == [f \in DOMAIN e.faces |-> SetOf(e.faces[f].ids)]
  IN Bad({<<"C14.once", \A i, j \in DOMAIN sets : i # j => sets[i] # sets[j]>>,
          <<"C14.faces", {sets[f] : f \in DOMAIN sets} = DOMAIN tab>>,
          <<"C14.owners", \A f \in DOMAIN sets : sets[f] \in DOMAIN tab => Owners(e.faces[f].own) = tab[sets[f]]>>,
          <<"C14.padding", \A f \in DOMAIN sets : LET o == e.faces[f].own IN
              /\ Len(o) = Len(e.faces[1].own)
              /\ \A i \in DOMAIN o : (o[i] = -1 => \A j \in i..Len(o) : o[j] = -1) /\ \A j \in DOMAIN o : (i # j /\ o[i] # -1) => o[i] # o[j]>>,
          <<"C14.cycle", \A f \in DOMAIN sets : sets[f] \in DOMAIN tab => \E c \in tab[sets[f]] :
              LET F == FacesOf(e.m.cells[c + 1], d) IN \E i \in DOMAIN F : SetOf(F[i]) = sets[f] /\ Cycle(F[i], e.faces[f].ids)>>,
          <<"C14.points", e.pts = e.m.pts>>})
SharedWith(tab, i, j) == Cardinality({s \in DOMAIN tab : i \in tab[s] /\ j \in tab[s]})
CountIn(s, x) == Cardinality({k \in DOMAIN s : s[k] = x})
FailNeigh(e) ==
  IF e.exc # "" THEN {"C14.nraised"} ELSE
  LET tab == FaceTable(e.m, e.rem)  N == Len(e.m.cells) IN
  IF Len(e.nb) # N THEN {"C14.ncount"} ELSE
  Bad({<<"C14.neighbours", \A i \in 1..N : SetOf(e.nb[i]) = UNION {tab[s] : s \in {x \in DOMAIN tab : i - 1 \in tab[x]}} \ {i - 1}>>,
       <<"C14.symmetric", \A i \in 1..N : \A k \in DOMAIN e.nb[i] : e.nb[i][k] \in 0..N - 1 /\ CountIn(e.nb[i], e.nb[i][k]) = CountIn(e.nb[e.nb[i][k] + 1], i - 1)>>,
       <<"C14.perface", \A i \in 1..N : \A k \in DOMAIN e.nb[i] : CountIn(e.nb[i], e.nb[i][k]) = SharedWith(tab, i - 1, e.nb[i][k])>>})
FailConn(e) ==
  IF e.badc THEN Bad({<<"C14.centers", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C14.craised"} ELSE
  LET tab == FaceTable(e.m, e.rem)  N == Len(e.m.cells)
      pairs == {<<i, j>> \in (0..N - 1) \X (0..N - 1) : i < j /\ \E s \in DOMAIN tab : i \in tab[s] /\ j \in tab[s]}
      norm(x) == <<Min2(x[1], x[2]), Max2(x[1], x[2])>>
      have == [k \in DOMAIN e.lines |-> norm(e.lines[k])] IN
  Bad({<<"C14.lines", {have[k] : k \in DOMAIN have} = pairs>>,
       <<"C14.linecount", \A p \in {have[k] : k \in DOMAIN have} : CountIn(have, p) = SharedWith(tab, p[1], p[2])>>,
       <<"C14.ends", e.given => e.ends = e.cen>>})
Fail(e, s) == CASE e.ev = "geom" -> FailGeom(e) [] e.ev = "neigh" -> FailNeigh(e) [] e.ev = "conn" -> FailConn(e)
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
