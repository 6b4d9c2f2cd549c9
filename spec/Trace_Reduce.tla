---- MODULE Trace_Reduce ----
(* rdp: polylines (and plain lines) of a mesh before and after; avg: points and faces before and after; path: points and the line
   reconstructed.  Input points are lattice points, output points lattice points at scale e.h (per lattice unit).                  *)
EXTENDS TraceBase, Reduce
(* VTK drops points of a line that coincide with their predecessor; a closed line within tolerance of its ends is then a point *)
Dedup(s) == SelectSeq([i \in DOMAIN s |-> IF i > 1 /\ s[i] = s[i - 1] THEN <<>> ELSE s[i]], LAMBDA x : x # <<>>)
Wanted(e, i) == {Dedup(Pick(e.lines[i], S)) : S \in IF e.plain[i] THEN {{1, 2}} ELSE Rdp(e.lines[i], 1, Len(e.lines[i]), e.tn, 16)}
FailRdp(e) ==
  IF e.exc # "" THEN {"C20.rdp_raised"} ELSE
  IF \E i \in DOMAIN e.lines : \E q \in Wanted(e, i) : Len(q) < 2 THEN {} ELSE
  IF Len(e.out) # Len(e.lines) THEN {"C20.rdp_count"} ELSE
  UNION {LET s == e.lines[i] IN
         Bad({<<"C20.rdp_ends", Len(e.out[i]) >= 2 /\ e.out[i][1] = s[1] /\ e.out[i][Len(e.out[i])] = s[Len(s)]>>,
              <<"C20.rdp_kept", e.out[i] \in Wanted(e, i)>>}) : i \in DOMAIN e.lines}
SameCycle(a, b) == Len(a) = Len(b) /\ (a = b \/ \E k \in 0..Len(a) - 1 : Rot(a, k) = b)
FailAvg(e) ==
  IF e.exc # "" THEN {"C20.avg_raised"} ELSE
  LET g == [i \in DOMAIN e.pts |-> Group(e.pts, i, e.tn, 2)]
      mean(G) == [c \in 1..3 |-> <<SumP(e.pts, G)[c], Cardinality(G)>>]
      at(q, G) == \A c \in 1..3 : Near(q[c] * Cardinality(G), SumP(e.pts, G)[c] * e.h, 2 * Cardinality(G))
      Gs == {g[i] : i \in DOMAIN g}
      clash == \E A, B \in Gs : A # B /\ \A c \in 1..3 : SumP(e.pts, A)[c] * Cardinality(B) = SumP(e.pts, B)[c] * Cardinality(A)
      face(f) == Runs([k \in DOMAIN f |-> g[f[k]]])
      keep == SelectSeq([i \in DOMAIN e.faces |-> i], LAMBDA i : Cardinality({g[e.faces[i][k]] : k \in DOMAIN e.faces[i]}) > 2)
      used == IF e.faces = <<>> THEN Gs ELSE UNION {{face(e.faces[keep[j]])[k] : k \in DOMAIN face(e.faces[keep[j]])} : j \in DOMAIN keep}
  IN IF clash THEN {} ELSE
     Bad({<<"C20.avg_number", Len(e.out) = Cardinality(used)>>,
          <<"C20.avg_mean", \A G \in used : \E i \in DOMAIN e.out : at(e.out[i], G)>>}) \union
     (IF e.faces = <<>> THEN {} ELSE IF Len(e.ofaces) # Len(keep) THEN {"C20.avg_faces"} ELSE
      Bad({<<"C20.avg_origin", [j \in DOMAIN keep |-> keep[j] - 1] = e.orig>>,
           <<"C20.avg_corners", \A j \in DOMAIN keep : LET f == face(e.faces[keep[j]])  o == e.ofaces[j] IN
               Len(o) = Len(f) /\ \E r \in 0..Len(f) - 1 : \A k \in DOMAIN f : at(e.out[Rot(o, r)[k]], f[k])>>}))
FailPath(e) ==
  IF e.bad THEN Bad({<<"C20.path_refused", e.exc = "ValueError">>}) ELSE
  IF e.exc # "" THEN {"C20.path_raised"} ELSE
  LET n == Len(e.pts)  in == [i \in 1..n |-> e.pts[((i - 1 + e.first) % n) + 1]]  o == e.out IN
  IF Len(o) # n THEN {"C20.path_number"} ELSE
  Bad({<<"C20.path_points", \A i \in 1..n : Cardinality({j \in 1..n : o[j] = o[i]}) = Cardinality({j \in 1..n : in[j] = o[i]})>>,
       <<"C20.path_start", o[1] = in[1]>>,
       <<"C20.path_closed", e.closed = e.close>>,
       <<"C20.path_length", PathLen(o, e.close) <= PathLen(in, e.close) + n>>,
       <<"C20.path_flip", \A i, j \in 2..n : i < j => PathLen(Flip(o, i, j), e.close) >= PathLen(o, e.close) - n - 1>>})
Fail(e, s) == CASE e.ev = "rdp" -> FailRdp(e) [] e.ev = "avg" -> FailAvg(e) [] e.ev = "path" -> FailPath(e)
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
