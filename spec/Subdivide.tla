---- MODULE Subdivide ----
(* The subdivision law.  A resolution is [k |-> "none"], [k |-> "int", n |-> n], [k |-> "list", v |-> positions at
   scale PS] or [k |-> "bad"] (a multi-dimensional list).  A method is "" (omitted) or a name.                     *)
EXTENDS Base, LogTable
Methods == {"", "constant", "log", "log_r"}

Count(res) == IF res.k = "none" THEN 1 ELSE Max2(1, res.n)            \* number of subdivisions of an integer resolution
Sorted(v)  == SortSeq(v, LAMBDA a, b : a < b)

Refused(res, m) == \/ res.k = "bad"
                   \/ res.k \in {"none", "int"} /\ m \notin Methods

Perc(res, m) ==
  IF res.k = "list" THEN Sorted(res.v)
  ELSE LET n == Count(res) IN
       [i \in 1..n + 1 |-> CASE m \in {"", "constant"} -> RoundDiv((i - 1) * PS, n)
                             [] m = "log_r" -> LogT[n][i]
                             [] m = "log"   -> PS - LogT[n][n + 2 - i]]
NSub(res) == IF res.k = "list" THEN Len(res.v) - 1 ELSE Count(res)    \* number of intervals
Mid(p) == [i \in 1..Len(p) - 1 |-> (p[i] + p[i + 1]) \div 2]
====
