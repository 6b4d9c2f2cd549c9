---- MODULE Base ----
(* Numbers and sequences used by every module.  Reals of the implementation are integers at a fixed scale:
   coordinates at K = 10^4, relative positions at PS = 10^6 (TLC integers are 32 bits wide).               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, FiniteSetsExt, SequencesExt

K   == 10000
PS  == 1000000
NaN == 2000000000

Abs(x)        == IF x < 0 THEN -x ELSE x
Sgn(x)        == IF x < 0 THEN -1 ELSE IF x > 0 THEN 1 ELSE 0
Min2(a, b)    == IF a < b THEN a ELSE b
Max2(a, b)    == IF a > b THEN a ELSE b
Near(a, b, t) == Abs(a - b) <= t
Sum(s)        == FoldLeft(LAMBDA a, b : a + b, 0, s)
(* sum of the second components of a set of <<key, value>> pairs *)
SumPairs(S)   == FoldSet(LAMBDA x, a : a + x[2], 0, S)
MapSeq(f(_), s) == [i \in DOMAIN s |-> f(s[i])]
Rev(s)        == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Rot(s, k)     == [i \in 1..Len(s) |-> s[((i - 1 + k) % Len(s)) + 1]]
Increasing(s)   == \A i \in 1..Len(s) - 1 : s[i] <= s[i + 1]
RoundDiv(a, b) == (a + b \div 2) \div b                      \* b > 0, nearest integer

(* round(p * d / PS) for 0 <= p <= PS (a little outside is fine), |d| < 2*10^6, without 32-bit overflow; error <= 2 *)
ScaleBy(p, d) == LET a == Abs(d)
                     q == RoundDiv(p * (a \div 1000), 1000) + RoundDiv(p * (a % 1000), PS)
                 IN IF d < 0 THEN -q ELSE q

Lerp(a, b, p) == a + ScaleBy(p, b - a)
LerpP(a, b, p) == [c \in 1..3 |-> Lerp(a[c], b[c], p)]        \* points
NearP(a, b, t) == \A c \in 1..3 : Near(a[c], b[c], t)
NearS(s, u, t) == Len(s) = Len(u) /\ \A i \in 1..Len(s) : Near(s[i], u[i], t)
NearPS(s, u, t) == Len(s) = Len(u) /\ \A i \in 1..Len(s) : NearP(s[i], u[i], t)
AddP(a, b)  == [c \in 1..3 |-> a[c] + b[c]]
SubP(a, b)  == [c \in 1..3 |-> a[c] - b[c]]

(* names of the clauses that fail, out of a set of <<name, truth>> pairs *)
Bad(S) == {x[1] : x \in {y \in S : ~y[2]}}
====
