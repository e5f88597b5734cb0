----------------------------- MODULE TraceParse -----------------------------
(* Validates recorded runs of parser.ParseFile and parser.ParseExpr: for each *)
(* record the machine runs on its source, one token or reduction per step,    *)
(* and the recorded result is compared with the machine's final state.        *)
EXTENDS Match, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, m
vars == <<l, m>>

R == Trace[l]
PS == R.ps = 1
Crashed == "crash" \in DOMAIN R

Init == /\ l \in 1..Len(Trace)
        /\ m = IF Trace[l].op = "expr" THEN InitExpr(Trace[l].src) ELSE InitFile(Trace[l].src)

Verdict ==
    IF Crashed
    THEN {"C01"} \cup (IF m.st = "ok" /\ ~m.odd THEN {"C03", "C08", IF PS THEN "C05" ELSE "C04"} ELSE {})
    ELSE IF R.op = "expr" THEN ExprVerdict(R, m)
    ELSE FileVerdict(R, m) \cup (IF R.srcmod = 1 THEN {"C16"} ELSE {})     \* the text given is only read

Run == m.st = "run" /\ m' = Step(m, R.src, PS) /\ l' = l
Judge == /\ m.st \in {"ok", "rej"}
         /\ PrintT("VERDICT " \o ToJson(<<R.id, m.st, m.odd, Verdict, m.cov>>))
         /\ m' = [st |-> "end"]
         /\ l' = l
Next == Run \/ Judge
Spec == Init /\ [][Next]_vars

MachineInv == m.st = "run" => StackInv(m) /\ OrderInv(m)
=============================================================================
