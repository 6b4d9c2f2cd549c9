---- MODULE MC_Workspace ----
(* Histories of a builder and the objects given to it: additions, generations, in-place changes by the user.
   The ideal builder (values) is run next to one that keeps references; the histories that tell them apart are emitted. *)
EXTENDS Workspace, Json
CONSTANT N
VARIABLES w, refs, h, gens, apart
vars == <<w, refs, h, gens, apart>>
Objs == {"x", "y"}
Tok(f, s) == <<f, s>>                                            \* values are terms
Init == w = [val |-> [o \in Objs |-> <<o, 0>>], memo |-> Empty, bld |-> [b \in {"B"} |-> <<>>]] /\ refs = <<>> /\ h = <<>> /\ gens = <<>> /\ apart = FALSE
Mean(items) == <<"mesh", items>>
Add == \E o \in Objs : /\ w' = Give(w, "B", "add", <<o>>) /\ refs' = Append(refs, o) /\ h' = Append(h, <<"add", o>>) /\ UNCHANGED <<gens, apart>>
DoGen == LET v == Mean(w.bld["B"])  rv == Mean(FlattenSeq([i \in DOMAIN refs |-> <<"add", w.val[refs[i]]>>])) IN
   /\ w' = Gen(w, "B", "", "", v) /\ gens' = Append(gens, v) /\ h' = Append(h, <<"gen">>) /\ apart' = (apart \/ v # rv) /\ UNCHANGED refs
Touch == \E o \in Objs : /\ w' = Edit(w, o, <<w.val[o][1], w.val[o][2] + 1>>) /\ h' = Append(h, <<"edit", o>>) /\ UNCHANGED <<refs, gens, apart>>
(* the user spoils the last generated mesh *)
Spoil == /\ gens # <<>> /\ h[Len(h)] = <<"gen">> /\ h' = Append(h, <<"spoil">>) /\ UNCHANGED <<w, refs, gens, apart>>
Next == Len(h) < N /\ (Add \/ DoGen \/ Touch \/ Spoil)
(* two generations with the same items between them are equal, whatever else happened *)
Same == \A i, j \in DOMAIN gens : i < j => (gens[i] = gens[j] <=> Len(gens[i][2]) = Len(gens[j][2]))
Functional == \A k \in DOMAIN w.memo : w.memo[k] = Mean(SubSeq(k, 3, Len(k)))
Prefix == \A i, j \in DOMAIN gens : i < j => SubSeq(gens[j][2], 1, Len(gens[i][2])) = gens[i][2]
(* references and values agree unless an added object was changed later *)
Cause == apart => \E i, j \in DOMAIN h : i < j /\ h[i][1] = "add" /\ h[j] = <<"edit", h[i][2]>>
Emit == (Len(h) = N /\ h[N][1] = "gen") => PrintT("B|" \o ToJson([h |-> h, apart |-> apart]))
====
