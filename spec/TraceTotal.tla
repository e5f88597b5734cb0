----------------------------- MODULE TraceTotal -----------------------------
(* The life of a source text: every entry point is called on it, and on what *)
(* the calls before it left behind.  Each call returns: with a result or an  *)
(* ordinary error, and after work in proportion to the source.               *)
(* A recorded call is <<name, mode, "returned" | "panic", result given,      *)
(* number of errors, size of the result>>.                                   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, st, have
vars == <<l, i, st, have>>
R == Trace[l]
C == R.calls[i]
Crashed == "crash" \in DOMAIN R

Limit(n) == 4 * n + 16      \* errors, and nodes of a tree

Init == /\ l \in 1..Len(Trace)
        /\ i = 1
        /\ have = {}
        /\ st = IF "crash" \in DOMAIN Trace[l] THEN "crash" ELSE "run"

(* have: the trees that exist: <<"file", mode>> and <<"expr", 2>>.           *)
Returns(c) == c[3] = "returned" /\ c[5] <= Limit(R.n)
OK(c) ==
    CASE c[1] = "scan" -> c[4] = 1 /\ c[6] <= 2 * R.n + 4
      [] c[1] = "parse" -> c[4] = 1                           \* a tree in any case
      [] c[1] \in {"expr", "biber"} -> (c[4] = 1) = (c[5] = 0)  \* a tree or an error
      [] c[1] \in {"file/walk", "expr/walk"} -> c[5] = 0 /\ c[6] <= Limit(R.n)
      [] c[1] \in {"file/authors", "expr/authors"} -> c[5] = 0 \/ c[6] = 0
      [] c[1] \in {"resolve0", "resolve1", "resolve2"} -> c[5] = 0 \/ c[6] = 0
      [] OTHER -> TRUE
Needs(c) ==
    CASE c[1] \in {"scan", "parse", "expr", "biber"} -> TRUE
      [] c[1] \in {"expr/walk", "expr/render", "expr/strings", "expr/text", "expr/authors"} -> <<"expr", 2>> \in have
      [] OTHER -> <<"file", c[2]>> \in have

Call == /\ st = "run" /\ i <= Len(R.calls)
        /\ IF Returns(C) /\ OK(C) /\ Needs(C)
           THEN /\ i' = i + 1
                /\ st' = st
                /\ have' = have \cup (CASE C[1] = "parse" /\ C[4] = 1 -> {<<"file", C[2]>>}
                                        [] C[1] = "expr" /\ C[4] = 1 -> {<<"expr", 2>>}
                                        [] OTHER -> {})
           ELSE i' = i /\ st' = "bad" /\ have' = have
        /\ l' = l

Judge == /\ st \in {"bad", "crash"} \/ (st = "run" /\ i > Len(R.calls))
         /\ PrintT("VERDICT " \o ToJson(<<R.id, st, FALSE, IF st = "run" THEN {} ELSE {"C01"},
                     IF Crashed THEN {} ELSE {<<R.calls[k][1], R.calls[k][5] = 0>> : k \in 1..Len(R.calls)}>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, i, have>>
Next == Call \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
