---- MODULE MC_Props ----
(* Meshes assembled cell by cell on the corners of a box: flattening loses nothing, and the dimension is that of the highest cell. *)
EXTENDS Props, Json
CONSTANT N
VARIABLES cells, hid
C(t, ids) == [type |-> t, ids |-> ids, faces |-> <<>>]
Box == << <<1, 4, 3, 2>>, <<5, 6, 7, 8>>, <<1, 2, 6, 5>>, <<2, 3, 7, 6>>, <<3, 4, 8, 7>>, <<1, 5, 8, 4>> >>
Slice == << <<1, 3, 2>>, <<1, 2, 6, 5>>, <<2, 3, 6>>, <<1, 5, 3>>, <<3, 5, 6>> >>
Univ == {C(EMPTY, <<>>), C(VERTEX, <<3>>), C(LINE, <<1, 2>>), C(PLINE, <<1, 2, 3>>), C(TRI, <<1, 2, 3>>), C(QUAD, <<1, 2, 3, 4>>), C(PIXEL, <<1, 2, 4, 3>>), C(TET, <<1, 2, 4, 5>>),
         C(HEX, <<1, 2, 3, 4, 5, 6, 7, 8>>), C(WEDGE, <<1, 2, 4, 5, 6, 8>>), C(PYR, <<1, 2, 3, 4, 7>>), [type |-> PHED, ids |-> <<>>, faces |-> Box], [type |-> PHED, ids |-> <<>>, faces |-> Slice]}
Init == cells = <<>> /\ hid = <<>>
Next == Len(cells) < N /\ \E c \in Univ, h \in BOOLEAN : cells' = Append(cells, c) /\ hid' = Append(hid, h)
Types == [i \in DOMAIN cells |-> cells[i].type]
RoundTrip == Unflatten(Flatten(cells), Types) = [i \in DOMAIN cells |-> Core(cells[i])]
Dimension == cells # <<>> => LET d == Max({TypeDim(t) : t \in SetOf(Types)}) IN d \in -1..3 /\ (\A i \in DOMAIN cells : TypeDim(Types[i]) <= d)
Sizes == Len(Flatten(cells)) = Sum([i \in DOMAIN cells |-> 1 + (IF cells[i].type = PHED THEN 1 + Sum([f \in DOMAIN cells[i].faces |-> 1 + Len(cells[i].faces[f])]) ELSE Len(cells[i].ids))])
Emit == Len(cells) = N => PrintT("B|" \o ToJson([cells |-> cells, hid |-> hid]))
====
