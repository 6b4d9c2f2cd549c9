---- MODULE MC_Tiling ----
(* Triangulations of small lattice polygons: any sequence of splits and flips keeps a tiling, and a cell dropped, doubled or moved breaks it.
   The polygons are checked with Pick's theorem, which ties Within, Border and Sh2 together, and are emitted for replay.                     *)
EXTENDS Tiling, Json
CONSTANTS N, M, Steps
VARIABLES shell, tris, n
Lattice == {<<x, y>> : x, y \in 0..M}
Proper(a, b, c, d) == /\ Side(a, b, c) * Side(a, b, d) < 0 /\ Side(c, d, a) * Side(c, d, b) < 0
Touches(a, b, p) == /\ Side(a, b, p) = 0 /\ Min2(a[1], b[1]) <= p[1] /\ p[1] <= Max2(a[1], b[1]) /\ Min2(a[2], b[2]) <= p[2] /\ p[2] <= Max2(a[2], b[2])
SimpleLoop(p) == /\ \A i, j \in DOMAIN p : i # j => p[i] # p[j]
                 /\ \A i, j \in DOMAIN p : i # j => LET a == p[i]  b == p[Nxp(i, Len(p))]  c == p[j]  d == p[Nxp(j, Len(p))] IN
                        /\ ~Proper(a, b, c, d) /\ (c \notin {a, b} => ~Touches(a, b, c))
                 /\ \A i \in DOMAIN p : Side(p[i], p[Nxp(i, Len(p))], p[Nxp(Nxp(i, Len(p)), Len(p))]) # 0
Shells == {p \in UNION {[1..k -> Lattice] : k \in 3..N} : p[1] = <<0, 0>> /\ (\A i \in DOMAIN p : i > 1 => p[i] # <<0, 0>>) /\ SimpleLoop(p) /\ Sh2(p) > 0}
Only(p, q) == Within(p, q) /\ ~(\E i \in DOMAIN p : Touches(p[i], p[Nxp(i, Len(p))], q))
OnRim(p, q) == \E i \in DOMAIN p : Touches(p[i], p[Nxp(i, Len(p))], q)
Pick == 2 * Cardinality({q \in Lattice : Only(shell, q)}) + Cardinality({q \in Lattice : OnRim(shell, q)}) - 2 = Sh2(shell)
(* ears: a triangulation of a simple polygon *)
Ear(p, i) == LET a == p[IF i = 1 THEN Len(p) ELSE i - 1]  b == p[i]  c == p[Nxp(i, Len(p))] IN
   /\ Side(a, b, c) > 0 /\ \A q \in {p[k] : k \in DOMAIN p} \ {a, b, c} : ~(Side(a, b, q) >= 0 /\ Side(b, c, q) >= 0 /\ Side(c, a, q) >= 0)
RECURSIVE Clip(_)
Clip(p) == IF Len(p) = 3 THEN <<p>> ELSE
  LET i == CHOOSE i \in DOMAIN p : Ear(p, i)
      a == p[IF i = 1 THEN Len(p) ELSE i - 1]  c == p[Nxp(i, Len(p))] IN
  <<<<a, p[i], c>>>> \o Clip([k \in 1..Len(p) - 1 |-> IF k < i THEN p[k] ELSE p[k + 1]])
S(p) == [k \in DOMAIN p |-> <<12 * p[k][1], 12 * p[k][2]>>]
Init == shell \in Shells /\ tris = [i \in DOMAIN Clip(shell) |-> S(Clip(shell)[i])] /\ n = 0
Mid(t) == <<(t[1][1] + t[2][1] + t[3][1]) \div 3, (t[1][2] + t[2][2] + t[3][2]) \div 3>>
Inner(t, q) == Side(t[1], t[2], q) > 0 /\ Side(t[2], t[3], q) > 0 /\ Side(t[3], t[1], q) > 0
Split == \E i \in DOMAIN tris : LET t == tris[i]  m == Mid(t) IN Inner(t, m) /\
   tris' = [k \in DOMAIN tris \ {i} |-> tris[k]] @@ (i :> <<t[1], t[2], m>>) @@ (Len(tris) + 1 :> <<t[2], t[3], m>>) @@ (Len(tris) + 2 :> <<t[3], t[1], m>>)
Flip == \E i, j \in DOMAIN tris : i # j /\ \E a, b \in 0..2 : LET s == Rot(tris[i], a)  u == Rot(tris[j], b) IN
   /\ s[1] = u[2] /\ s[2] = u[1] /\ Side(s[3], u[3], s[2]) < 0 /\ Side(u[3], s[3], s[1]) < 0 /\ Side(s[3], s[1], u[3]) > 0 /\ Side(u[3], s[2], s[3]) > 0
   /\ tris' = [tris EXCEPT ![i] = <<s[3], s[1], u[3]>>, ![j] = <<u[3], s[2], s[3]>>]
Next == n < Steps /\ (Split \/ Flip) /\ n' = n + 1 /\ UNCHANGED shell
(* tiling predicate on explicit cells *)
PtsOf(T) == SetToSeq(UNION {{T[i][k] : k \in 1..3} : i \in DOMAIN T})
Idx(P, T) == [i \in DOMAIN T |-> [k \in 1..3 |-> CHOOSE x \in DOMAIN P : P[x] = T[i][k]]]
Faults(T) == LET P == PtsOf(T) IN TilingFaults(S(shell), <<>>, P, Idx(P, T), 0)
Tiles == Faults(tris) = {}
Breaks == \A i \in DOMAIN tris : /\ Len(tris) > 1 => Faults([k \in 1..Len(tris) - 1 |-> IF k < i THEN tris[k] ELSE tris[k + 1]]) # {}
                                 /\ Faults(Append(tris, tris[i])) # {}
Emit == n = 0 => PrintT("B|" \o ToJson([p |-> shell]))
====
