---- MODULE Lines ----
(* Polylines of a mesh m = [pts, lines, pd, cd]: lines are sequences of point numbers, pd and cd map the name of a data array
   to its values (one per point, one per line).                                                                              *)
EXTENDS Base
Keys(r) == DOMAIN r
Pos(m, i) == [k \in DOMAIN m.lines[i] |-> m.pts[m.lines[i][k]]]
PData(m, i, K2) == [k \in DOMAIN m.lines[i] |-> [x \in K2 |-> m.pd[x][m.lines[i][k]]]]
CData(m, i, K2) == [x \in K2 |-> m.cd[x][i]]
(* a line on its own: where it runs, data of its points, data of the cell *)
Line(m, i, P, C) == [p |-> Pos(m, i), d |-> PData(m, i, P), c |-> CData(m, i, C)]
All(m, P, C) == [i \in DOMAIN m.lines |-> Line(m, i, P, C)]
Segs(x) == [k \in 1..Len(x.p) - 1 |-> [p |-> SubSeq(x.p, k, k + 1), d |-> SubSeq(x.d, k, k + 1), c |-> x.c]]
Form(x, as) == IF as THEN Segs(x) ELSE <<x>>
Split(m, as) == [i \in DOMAIN m.lines |-> Form(Line(m, i, Keys(m.pd), Keys(m.cd)), as)]
Common(ms, f(_)) == {k \in Keys(f(ms[1])) : \A i \in DOMAIN ms : k \in Keys(f(ms[i]))}
CommonP(ms) == Common(ms, LAMBDA m : m.pd)
CommonC(ms) == Common(ms, LAMBDA m : m.cd)
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Merged(ms, as) == LET P == CommonP(ms)  C == CommonC(ms) IN
   Flat([i \in DOMAIN ms |-> Flat([j \in DOMAIN ms[i].lines |-> Form(Line(ms[i], j, P, C), as)])])
(* data of any point of the meshes at position p *)
DataAt(ms, p, P) == {[x \in P |-> ms[i].pd[x][k]] : <<i, k>> \in {<<a, b>> \in (DOMAIN ms) \X (1..Max({Len(ms[j].pts) : j \in DOMAIN ms})) :
                        b \in DOMAIN ms[a].pts /\ ms[a].pts[b] = p}}
====
