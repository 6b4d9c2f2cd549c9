---- MODULE Trace_Volume ----
EXTENDS TraceBase, Volume
T == 4
Lat(p) == [c \in 1..3 |-> p[c] \div Unit]
PolyOk(e, o, k) ==
  LET F == e.faces[k] IN
  IF ~IsPrism(F, o.bot[k], o.top[k]) THEN {"C05.prism"}
  ELSE IF ~Consistent(F) THEN {"C05.closed"}
  ELSE LET np == Len(e.a.pts)  sc == o.csrc[k]
           w == [v \in Range(o.bot[k]) \cup Range(o.top[k]) |-> Lat(IF v \in Range(o.bot[k]) THEN e.a.pts[o.psrc[v]] ELSE e.b.pts[o.psrc[v]])]
           og == Lat(e.a.pts[e.a.cells[sc][1]]) IN
       IF o.flat[k] \/ SignedVol(F, w, og) >= 0 THEN {} ELSE {"C05.outward"}
FailVolume(e) ==
  IF VolumeRefused(e.a, e.b, e.res, e.m) THEN Bad({<<"C05.refuse", e.exc = "ValueError">>})
  ELSE IF e.exc # "" THEN {"C05.raised"}
  ELSE LET o == IF e.a.kind = "struct" THEN StructVolume(e.a, e.b, e.res, e.m) ELSE UnstrVolume(e.a, e.b, e.res, e.m)
           same == Len(e.pts) = Len(o.pts) /\ Len(e.hid) = Len(o.csrc) /\ (e.a.kind = "struct" => e.dims = o.dims) IN
       IF ~same THEN {"C05.size"}
       ELSE Bad({<<"C05.points", NearPS(e.pts, o.pts, T)>>,
                 <<"C05.hidden", \A k \in DOMAIN o.csrc : e.hid[k] = (o.flat[k] \/ e.a.ghost[o.csrc[k]])>>,
                 <<"C05.pointdata", e.a.pd # <<>> => e.pd = [k \in DOMAIN o.psrc |-> e.a.pd[o.psrc[k]]]>>,
                 <<"C05.celldata", e.a.cd # <<>> => e.cd = [k \in DOMAIN o.csrc |-> e.a.cd[o.csrc[k]]]>>})
            \cup (IF e.a.kind = "struct" THEN {}
                  ELSE Bad({<<"C05.types", e.types = o.types>>,
                            <<"C05.cells", e.types = o.types => \A k \in DOMAIN o.csrc : o.types[k] # POLYHED => e.cells[k] = o.bot[k] \o o.top[k]>>})
                       \cup (IF e.types = o.types THEN UNION {PolyOk(e, o, k) : k \in {x \in DOMAIN o.csrc : o.types[x] = POLYHED}} ELSE {}))
Fail(e, s) == FailVolume(e)
Init == l = 1 /\ st = 0
Next == Step(Fail, LAMBDA e, s : s)
====
