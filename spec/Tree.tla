-------------------------------- MODULE Tree --------------------------------
(* Trees are tuples <<kind, id, -, number, text, kids>>; ids number the nodes *)
(* in the order they are written down.                                        *)
EXTENDS Integers, Sequences, FiniteSets

K(n) == n[1]
Id(n) == n[2]
Num(n) == n[4]
Str(n) == n[5]
Kids(n) == n[6]

(* What a walk visits below a node: missing parts and the keys of an entry    *)
(* are not visited.                                                           *)
Visited(n) == SelectSeq(Kids(n), LAMBDA k : K(k) \notin {"nil", "Key"})

RECURSIVE Nodes(_)
Nodes(n) == {n} \cup UNION {Nodes(Visited(n)[i]) : i \in 1..Len(Visited(n))}

RECURSIVE Size(_)
RECURSIVE SizeOf(_)
SizeOf(ns) == IF ns = <<>> THEN 0 ELSE Size(Head(ns)) + SizeOf(Tail(ns))
Size(n) == 1 + SizeOf(Visited(n))

RECURSIVE Strip(_)               \* the tree without ids
Strip(n) == <<n[1], n[4], n[5], [i \in 1..Len(n[6]) |-> Strip(n[6][i])]>>

Text(s) == <<"Text", 0, -1, 0, s, <<>>>>
WithKids(n, ks) == <<n[1], n[2], n[3], n[4], n[5], ks>>

(* The kind a renderer is registered for: accents count as text.              *)
KindOf(n) == IF K(n) = "Accent" THEN "Text" ELSE K(n)

Prefix(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
=============================================================================
