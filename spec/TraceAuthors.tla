---------------------------- MODULE TraceAuthors ----------------------------
(* Validates recorded calls of ExtractAuthors and RenderAccent.               *)
EXTENDS Authors, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, a, st
vars == <<l, a, st>>
R == Trace[l]

Init == /\ l \in 1..Len(Trace)
        /\ a = AInit
        /\ st = IF "crash" \in DOMAIN Trace[l] THEN "crash"
                ELSE IF Trace[l].op = "accent" THEN "accent"
                ELSE IF Trace[l].skip = 1 THEN "skip" ELSE "run"

Run == /\ st = "run" /\ a.st = "run"
       /\ a' = AStep(a, Kids(R.tree))
       /\ UNCHANGED <<l, st>>

(* Pieces that the parser never puts in a string make the list undefined.     *)
RECURSIVE Proper(_)
Proper(n) == /\ K(n) \in {"Parsed", "Text", "Comma", "Escaped", "Hyphen", "Math", "NBSP", "Space", "Macro", "Accent"}
             /\ \A i \in 1..Len(Kids(n)) : Proper(Kids(n)[i])

SameName(x, nm) == /\ \A i \in 1..4 : Squeeze(x[i]) = Squeeze(nm[i])
                   /\ x[5] = (IF IsOthers(nm) THEN 1 ELSE 0)
                   /\ x[6] = 0

Verdict ==
    CASE st = "crash" -> {"C12", "C01"}
      [] st = "skip" -> {}
      [] st = "accent" ->
           IF \A i \in 1..Len(R.res) :
                LET x == R.res[i]
                    s == IF x[2] > 0 THEN <<x[2]>> ELSE IF x[2] = 0 THEN <<>> ELSE <<97, 97>>
                IN IF CanAccent(x[1], s) THEN x[4] = 1 /\ x[3] = AccentOf(x[1], s) ELSE x[4] = 0
           THEN {} ELSE {"C13"}
      [] OTHER ->
           IF ~Proper(R.tree) \/ a.odd THEN {}
           ELSE IF /\ R.same = 1
                   /\ R.ok = (IF a.st = "end" THEN 1 ELSE 0)
                   /\ a.st = "end" => Len(R.authors) = Len(a.done)
                                      /\ \A i \in 1..Len(a.done) : SameName(R.authors[i], a.done[i])
                THEN {} ELSE {"C12"}

Cov == IF a.st = "run" THEN {} ELSE
       {<<a.st, Len(a.done)>>} \cup {<<"parts", [j \in 1..4 |-> IF Len(a.done[i][j]) > 0 THEN 1 ELSE 0]>> : i \in 1..Len(a.done)}

Judge == /\ st \notin {"run", "done"} \/ (st = "run" /\ a.st # "run")
         /\ PrintT("VERDICT " \o ToJson(<<R.id, IF st = "run" THEN a.st ELSE st, a.odd, Verdict, Cov>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, a>>
Next == Run \/ Judge
Spec == Init /\ [][Next]_vars

Inv == st = "run" => PartsInv(a.cur)
=============================================================================
