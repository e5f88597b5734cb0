----------------------------- MODULE TraceWalk ------------------------------
(* Validates recorded walks: each recorded call <<node id, entering>> must be *)
(* a step of the walk machine for the answer the walker gave, and the walk    *)
(* must end exactly when the machine does.                                    *)
EXTENDS Walk, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, w, k, st, cov
vars == <<l, w, k, st, cov>>
R == Trace[l]

Init == /\ l \in 1..Len(Trace)
        /\ k = 1
        /\ cov = {}
        /\ IF "crash" \in DOMAIN Trace[l]
           THEN w = [st |-> "done"] /\ st = "crash"
           ELSE w = WInit(Trace[l].tree) /\ st = "run"

Answer(i) == IF i <= Len(R.answers) THEN R.answers[i] ELSE "go"

Run ==
    /\ st = "run" /\ w.st = "run"
    /\ IF k > Len(R.calls)
       THEN st' = "missing" /\ UNCHANGED <<w, cov>>
       ELSE LET c == R.calls[k]
                a == Answer(k)
                cands == Candidates(w)
                hit == {i \in cands : Id(NextNode(w, i)) = c[1]}
            IN IF cands # {}
               THEN IF c[2] = 1 /\ hit # {}
                    THEN /\ w' = EnterNode(w, CHOOSE i \in hit : TRUE, a)
                         /\ cov' = cov \cup {<<"enter", K(NextNode(w, CHOOSE i \in hit : TRUE)), a>>}
                         /\ st' = st
                    ELSE st' = "wrong" /\ UNCHANGED <<w, cov>>
               ELSE IF c[2] = 0 /\ c[1] = Id(TopNode(w))
                    THEN /\ w' = LeaveNode(w, a)
                         /\ cov' = cov \cup {<<"leave", K(TopNode(w)), a>>}
                         /\ st' = st
                    ELSE st' = "wrong" /\ UNCHANGED <<w, cov>>
    /\ k' = k + 1
    /\ l' = l

Over == st = "run" /\ w.st = "done"
Verdict ==
    CASE st = "crash" -> {"C14", "C01"}
      [] st \in {"missing", "wrong"} -> {"C14"}
      [] OTHER -> IF Len(R.calls) = k - 1 /\ R.err = (IF w.err THEN "same" ELSE "none") THEN {} ELSE {"C14"}

Judge == /\ Over \/ st \in {"crash", "missing", "wrong"}
         /\ PrintT("VERDICT " \o ToJson(<<R.id, IF st = "run" THEN "end" ELSE st, FALSE, Verdict, cov>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, w, k, cov>>
Next == Run \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
