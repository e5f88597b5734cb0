------------------------------- MODULE MCParse -------------------------------
(* Checks the parser machine itself on every source of at most MaxLen chunks *)
(* over a set of chunks (and a fixed beginning): it always comes to an end,  *)
(* scanner and parser agree about being in a string, and completed           *)
(* declarations are in order.  Its inputs are the environment's SET, LEN.    *)
EXTENDS Parser, IOUtils

Chunks == CASE IOEnv.SET \in {"top", "entry"} -> {<<64, 97>>, <<123>>, <<125>>, <<40>>, <<41>>, <<107>>, <<61>>, <<44>>, <<35>>, <<34>>,
                                     <<49>>, <<37>>, <<10>>, <<64, 83, 116, 114, 105, 110, 103>>, <<64, 112, 114, 101, 97, 109, 98, 108, 101>>}
            [] IOEnv.SET = "string" -> {<<123>>, <<125>>, <<34>>, <<36>>, <<92>>, <<97>>, <<39>>, <<32>>, <<99>>, <<44>>, <<126>>,
                                        <<92, 117, 114, 108, 123>>}
Frame == CASE IOEnv.SET = "top" -> <<>> [] IOEnv.SET = "entry" -> <<64, 97, 123, 107, 44>> [] IOEnv.SET = "string" -> <<64, 97, 123, 107, 44, 116, 61>>
MaxLen == atoi(IOEnv.LEN)

VARIABLES src, ps, m
vars == <<src, ps, m>>

RECURSIVE Sources(_)
Sources(n) == IF n = 0 THEN {<<>>}
              ELSE LET s == Sources(n - 1) IN s \cup {x \o c : x \in s, c \in Chunks}

Init == /\ src \in {Frame \o s : s \in Sources(MaxLen)}
        /\ ps \in BOOLEAN
        /\ m = InitFile(src)
Next == m.st = "run" /\ m' = Step(m, src, ps) /\ UNCHANGED <<src, ps>>
Spec == Init /\ [][Next]_vars

Inv == m.st = "run" => StackInv(m) /\ OrderInv(m)

(* Progress: each token moves on, and only boundedly many reductions happen  *)
(* between two tokens, so every run ends.                                    *)
Weight(x) == CASE x.f = "expr" -> 2
               [] x.f = "bib" -> (CASE x.st = "after" -> 3 [] x.st = "comma" -> 2 [] OTHER -> 1)
               [] x.f = "abb" \/ x.f = "pre" -> 1
               [] OTHER -> 1
RECURSIVE Sum(_)
Sum(stk) == IF stk = <<>> THEN 0 ELSE 4 * Weight(Last(stk)) + Sum(Front(stk))
Measure(x) == LET left == Len(src) + 1 - x.sc.o + (IF x.ph = "scan" /\ x.st = "run" THEN 1 ELSE 0)
              IN left * 1000 + (IF x.ph = "scan" THEN 0 ELSE Sum(x.stk))
Ends == [][m.st = "run" /\ m'.st = "run" /\ m.ph = "parse" /\ m'.ph = "parse" => Sum(m'.stk) < Sum(m.stk)]_vars
Moves == [][m.st = "run" /\ m.ph = "scan" => \/ m'.sc.o > m.sc.o
                                             \/ m'.ph = "parse" /\ m'.tk.t \in {"EOF", "Bad"}]_vars
Stuck == m.st = "run" => ENABLED Next

(* The end of a run: nothing is left open when a document is accepted, and   *)
(* all of it was read.                                                       *)
Accepted == m.st = "ok" => /\ Len(m.stk) = 1
                           /\ m.sc.o = Len(src) /\ m.tk.t = "EOF"
                           /\ m.sc.eq = 0

(* Every character of an accepted document belongs to a declaration, to a    *)
(* comment or is white space (or a comma behind an entry).                   *)
InDecl(o) == \E i \in 1..Len(m.decls) : m.decls[i][2] <= o /\ o <= m.decls[i][3]
InComment(o) == \E i \in 1..Len(m.coms) : \E j \in 1..Len(m.coms[i]) :
                   m.coms[i][j][1] <= o /\ o < m.coms[i][j][1] + Len(m.coms[i][j][2])
Covered == m.st = "ok" => \A o \in 0..(Len(src) - 1) :
              InDecl(o) \/ InComment(o) \/ At(src, o) \in Space \cup {44}
(* A balanced look: an accepted document closes every entry delimiter.       *)
Closers == m.st = "ok" => \A i \in 1..Len(m.decls) :
              At(src, m.decls[i][2]) = 64 /\ At(src, m.decls[i][3]) \in {125, 41}
=============================================================================
