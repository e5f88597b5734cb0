------------------------------- MODULE MCSum --------------------------------
(* Checks that the machine of Parser.tla reads a document that ends in a      *)
(* blank line and whatever follows it independently: reading a and b at once  *)
(* finds a's declarations and comments, then b's, moved.  TraceSum relies on  *)
(* it.  a and b are all documents of at most LEN and LENB chunks.             *)
EXTENDS Parser, Shift, IOUtils

Chunks == {<<64, 97, 123, 107, 125>>,                                 \* @a{k}
           <<64, 97, 40, 107, 44, 116, 61, 34, 120, 34, 41>>,         \* @a(k,t="x")
           <<64, 97, 123, 107, 44, 116, 61, 123, 36>>,                \* @a{k,t={$
           <<64, 115, 116, 114, 105, 110, 103, 123, 97, 61, 49, 125>>,\* @string{a=1}
           <<64, 112, 114, 101, 97, 109, 98, 108, 101, 123, 34, 34, 125>>, \* @preamble{""}
           <<37, 99>>, <<10>>, <<10, 10>>, <<32>>, <<44>>, <<106>>, <<125>>, <<36>>}
LenA == atoi(IOEnv.LEN)
LenB == atoi(IOEnv.LENB)

RECURSIVE Sources(_)
Sources(n) == IF n = 0 THEN {<<>>}
              ELSE LET s == Sources(n - 1) IN s \cup {x \o c : x \in s, c \in Chunks}
SourcesB == Sources(LenB)

VARIABLES a, b, ps, m
vars == <<a, b, ps, m>>
Init == /\ a \in {s \o <<10, 10>> : s \in Sources(LenA)}
        /\ b = <<>>
        /\ ps \in BOOLEAN
        /\ m = ParseFile(a, ps)
Next == m.st = "ok" /\ b = <<>> /\ b' \in SourcesB \ {<<>>} /\ UNCHANGED <<a, ps, m>>
Spec == Init /\ [][Next]_vars

Decls(ds, k) == [i \in 1..Len(ds) |-> ShiftDecl(ds[i], k)]
(* A comma may follow an entry, so a b whose first token is one is left out.  *)
RECURSIVE FirstToken(_, _)
FirstToken(s, sc) == LET r == Scan(s, sc, FALSE) IN IF r.tok.t = "TexComment" THEN FirstToken(s, r.s) ELSE r.tok.t
Sums == (m.st = "ok" /\ b # <<>>) =>
    LET p == ParseFile(b, ps)
        w == ParseFile(a \o b, ps)
    IN (~p.odd /\ ~m.odd /\ FirstToken(b, ScanInit(b)) # "Comma") =>
        /\ w.st = p.st
        /\ w.decls = m.decls \o Decls(p.decls, Len(a))
        /\ w.st = "ok" => w.coms = m.coms \o ShiftComments(p.coms, Len(a))
=============================================================================
