---- MODULE Reduce ----
(* Reduction of lines and points.  Points are integer lattice points; a tolerance is tn / td lattice units with tn odd and td a power
   of two, so that no distance between lattice points, or of one to a line, equals it.                                              *)
EXTENDS Base
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Sq(a) == a[1] * a[1] + a[2] * a[2] + a[3] * a[3]
D2(a, b) == Sq(SubP(a, b))
(* squared distance of p to the line through a and b, times |b - a|^2 (to the point if they coincide) *)
Off2(p, a, b) == IF a = b THEN D2(p, a) ELSE Sq(Cross(SubP(b, a), SubP(p, a)))
Den2(a, b) == IF a = b THEN 1 ELSE D2(a, b)
Beyond(p, a, b, tn, td) == td * td * Off2(p, a, b) > tn * tn * Den2(a, b)
Between(i, j) == {k \in i..j : i < k /\ k < j}
Farthest(s, i, j) == {k \in Between(i, j) : \A m \in Between(i, j) : Off2(s[k], s[i], s[j]) >= Off2(s[m], s[i], s[j])}
Splits(s, i, j, tn, td) == {k \in Farthest(s, i, j) : Beyond(s[k], s[i], s[j], tn, td)}
RECURSIVE Rdp(_, _, _, _, _)
(* the sets of positions the farthest-point rule may keep (more than one where several points are equally far) *)
Rdp(s, i, j, tn, td) == LET F == Splits(s, i, j, tn, td) IN
  IF F = {} THEN {{i, j}} ELSE UNION {{x \union y : <<x, y>> \in Rdp(s, i, k, tn, td) \X Rdp(s, k, j, tn, td)} : k \in F}
SetSeq(S) == SetToSortSeq(S, <)
Pick(s, S) == LET q == SetSeq(S) IN [i \in DOMAIN q |-> s[q[i]]]
Prev(S, k) == Max({i \in S : i < k})
After(S, k) == Min({i \in S : i > k})

(* ---- averaging *)
Close(a, b, tn, td) == td * td * D2(a, b) < tn * tn \/ a = b
RECURSIVE Grow(_, _, _, _)
Grow(s, S, tn, td) == LET T == {i \in DOMAIN s : \E j \in S : Close(s[i], s[j], tn, td)} IN IF T \subseteq S THEN S ELSE Grow(s, S \union T, tn, td)
Group(s, i, tn, td) == Grow(s, {i}, tn, td)
SumP(s, G) == [c \in 1..3 |-> FoldSet(LAMBDA i, a : a + s[i][c], 0, G)]
(* a corner list with runs of one group removed, cyclically *)
Runs(g) == SelectSeq([i \in DOMAIN g |-> IF g[i] = g[IF i = 1 THEN Len(g) ELSE i - 1] THEN {} ELSE g[i]], LAMBDA x : x # {})

(* ---- shortening by reversal *)
RECURSIVE Newton(_, _)
Newton(n, x) == LET y == (x + n \div x) \div 2 IN IF y >= x THEN x ELSE Newton(n, y)
ISqrt(n) == IF n = 0 THEN 0 ELSE Newton(n, n)
Len3(a, b) == ISqrt(1000000 * D2(a, b))                        \* length * 1000, D2 <= 2000
PathLen(p, close) == Sum([i \in 1..Len(p) - 1 |-> Len3(p[i], p[i + 1])]) + (IF close THEN Len3(p[Len(p)], p[1]) ELSE 0)
Flip(p, i, j) == SubSeq(p, 1, i - 1) \o Rev(SubSeq(p, i, j)) \o SubSeq(p, j + 1, Len(p))
====
