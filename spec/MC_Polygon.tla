---- MODULE MC_Polygon ----
(* Rectilinear polygons moved outward and inward: area law, composition, independence of orientation and start corner. *)
EXTENDS Polygon, Json
VARIABLES p0, p, d, ax, n
Shapes == {<<<<0, 0>>, <<a, 0>>, <<a, b>>, <<0, b>>>> : a, b \in {4, 6}}
   \union {<<<<0, 0>>, <<a, 0>>, <<a, 4>>, <<a - 4, 4>>, <<a - 4, b>>, <<0, b>>>> : a, b \in {8, 9}}
   \union {<<<<0, 0>>, <<4, 0>>, <<8, 0>>, <<8, 6>>, <<0, 6>>>>}
   \union {<<<<0, 0>>, <<15, 0>>, <<15, 5>>, <<10, 5>>, <<10, 9>>, <<5, 9>>, <<5, 5>>, <<0, 5>>>>}
Init == /\ p0 \in UNION {{Rot(s, k) : k \in 0..Len(s) - 1} \union {Rev(Rot(s, k)) : k \in 0..Len(s) - 1} : s \in Shapes}
        /\ p = p0 /\ d = 0 /\ ax \in 1..3 /\ n = 0
Next == n < 2 /\ \E x \in {-1, 1, 2} : d + x > -2 /\ p' = MoveR(p, x) /\ d' = d + x /\ n' = n + 1 /\ UNCHANGED <<p0, ax>>
Corners4 == {4, 0, -4}
AreaLaw == Abs(Area2(p)) = Abs(Area2(p0)) + 2 * d * Perim(p0) + 8 * d * d
Compose == p = MoveR(p0, d)
Oriented == Sgn(Area2(p)) = Sgn(Area2(p0))
Mirror == MoveR(Rev(p0), d) = Rev(MoveR(p0, d))
Moved == \A i \in DOMAIN p : LET u == Edge(p0, i) IN Out(u, p0[i], p[i], Sgn(Area2(p0))) = d * (Abs(u[1]) + Abs(u[2]))
Emit == n = 1 => PrintT("B|" \o ToJson([p |-> p0, d |-> d, ax |-> ax]))
====
