---- MODULE Trace_Extrude ----
(* events: new, newbad, add, addbad, gen (see suites/extrude.py) *)
EXTENDS TraceBase, Extrude
T == 40
Dflt(s) == IF s.def = "" THEN "default" ELSE s.def
Succ(e, s) == CASE e.ev = "new" -> [cells |-> e.cells, types |-> e.types, cg |-> e.cg, cd |-> e.cd, ignore |-> e.ignore, def |-> e.def, sc |-> e.sc, ang |-> e.ang,
                                    ifs |-> <<e.pts>>, items |-> <<>>]
                [] e.ev = "add" -> [s EXCEPT !.ifs = Append(@, Apply(s.ifs[Len(s.ifs)], Effective(s, [vec |-> e.vec, dir |-> e.dir, n |-> e.n, sc |-> e.sc, ang |-> e.ang]))),
                                             !.items = Append(@, [res |-> e.res, m |-> e.m, grp |-> e.grp])]
                [] OTHER -> s
Volumic(t) == CASE t = 5 -> 13 [] t = 9 -> 12 [] t = 8 -> 12 [] t = 7 -> 42
FailGen(e, s) ==
  IF GenRefusedX(s.items) THEN
     Bad({<<IF s.items = <<>> THEN "C09.empty" ELSE IF \E i \in DOMAIN s.items : HasBad(s.items[i].grp) THEN "C08.refuse" ELSE "C09.refuse", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C07.raised", "C08.raised", "C09.raised"}
  ELSE
  LET items == s.items  perc == [i \in DOMAIN items |-> Perc(items[i].res, items[i].m)]
      keys == KeysX(items, Len(s.cells))
      exp == [k \in keys |-> CellX(s.cells, s.ifs, items, k, perc)]
      C == DOMAIN e.cells
      key(c) == <<e.cells[c].item, e.cells[c].col, e.cells[c].lay>>
      own(c) == key(c) \in keys /\ SameCornersX(exp[key(c)].pts, e.cells[c].pts, T)
      cand == [c \in C |-> IF own(c) THEN {key(c)} ELSE {k \in keys : SameCornersX(exp[k].pts, e.cells[c].pts, T)}]
      grp(k) == GroupOf(k[2] + 1, s.cg, items[k[1] + 1].grp, s.ignore, Dflt(s))
  IN
  Bad({<<"C09.count", Len(e.cells) = Cardinality(keys)>>,
       <<"C09.geometry", \A c \in C : cand[c] # {}>>,
       <<"C09.complete", (\A c \in C : own(c)) \/ \A k \in keys : \E c \in C : k \in cand[c] \/ SameCornersX(exp[k].pts, e.cells[c].pts, T)>>,
       <<"C09.hidden", \A c \in C : cand[c] = {} \/ \E k \in cand[c] : exp[k].vague \/ e.cells[c].hid = exp[k].flat>>,
       <<"C09.types", \A c \in C : cand[c] = {} \/ \E k \in cand[c] : e.types[c] = Volumic(s.types[k[2] + 1])>>,
       <<"C07.keys", \A c \in C : key(c) \in keys>>,
       <<"C07.once", Cardinality({key(c) : c \in C}) = Cardinality(C) /\ Cardinality(C) = Cardinality(keys)>>,
       <<"C07.geometry", \A c \in C : key(c) \in keys => cand[c] = {} \/ own(c)>>,
       <<"C07.celldata", s.cd # <<>> => \A c \in C : key(c) \in keys => e.cells[c].cd = s.cd[e.cells[c].col + 1]>>,
       <<"C08.group", \A c \in C : cand[c] = {} \/ \E k \in cand[c] : e.cells[c].grp = grp(k)>>,
       <<"C08.table", TableOk(e.table, [c \in C |-> e.cells[c].grp], [c \in C |-> e.cells[c].num])>>,
       <<"C08.names", [c \in C |-> e.cells[c].grp] = e.names>>})
Fail(e, s) == CASE e.ev = "new" -> Bad({<<"C09.new", e.exc = "">>})
                [] e.ev = "newbad" -> Bad({<<"C09.newrefuse", e.exc = "ValueError">>})
                [] e.ev = "add" -> Bad({<<"C09.add", e.exc = "">>})
                [] e.ev = "addbad" -> Bad({<<"C09.vector", e.exc = "ValueError">>})
                [] e.ev = "gen" -> FailGen(e, s)
Init == l = 1 /\ st = [none |-> TRUE]
Next == Step(Fail, Succ)
====
