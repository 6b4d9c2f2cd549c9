---- MODULE MC_Select ----
(* Every mesh of up to N cells of mixed dimension, every selection of it. *)
EXTENDS Select, Json
CONSTANT N
VARIABLES cells, op
C(t, ids) == [type |-> t, ids |-> ids, faces |-> <<>>]
Univ == {C(EMPTY, <<>>), C(VERTEX, <<3>>), C(LINE, <<1, 2>>), C(TRI, <<1, 2, 3>>), C(TET, <<1, 2, 4, 5>>)}
None == [k |-> "none"]
M == [cells |-> cells]
Init == cells = <<>> /\ op = None
Add == op = None /\ Len(cells) < N /\ \E c \in Univ : cells' = Append(cells, c) /\ UNCHANGED op
Sel == op = None /\ cells # <<>> /\ \E s \in SUBSET Cells0(M), inv \in BOOLEAN : op' = [k |-> "sel", s |-> s, inv |-> inv] /\ UNCHANGED cells
Dim == op = None /\ cells # <<>> /\ \E d \in 0..3, me \in {"upper", "lower"}, ke \in BOOLEAN : op' = [k |-> "dim", d |-> d, me |-> me, keep |-> ke] /\ UNCHANGED cells
Next == Add \/ Sel \/ Dim
Result == IF op.k = "sel" THEN Chosen(M, op.s, op.inv) ELSE ByDim(M, op.d, op.me, op.keep)
Inside == op # None => Result \subseteq Cells0(M)
(* a selection and its inverse split the mesh *)
Split == op.k = "sel" => Result \cap Chosen(M, op.s, ~op.inv) = {} /\ Result \union Chosen(M, op.s, ~op.inv) = Cells0(M)
(* cells of dimension <= d and those of dimension >= d + 1 split the cells that are not empty; both contain those of dimension d for the same d *)
DimSplit == (op.k = "dim" /\ ~op.keep /\ op.d < 3) =>
   LET lo == ByDim(M, op.d, "lower", FALSE)  up == ByDim(M, op.d + 1, "upper", FALSE) IN
     lo \cap up = {} /\ lo \union up = {c \in Cells0(M) : cells[c + 1].type # EMPTY}
Keep == (op.k = "dim" /\ op.keep) => Result \ ByDim(M, op.d, op.me, FALSE) = {c \in Cells0(M) : cells[c + 1].type = EMPTY}
Emit == (op # None /\ Len(cells) = N) => PrintT("B|" \o ToJson([cells |-> cells, op |-> op]))
====
