----------------------------- MODULE TraceSession -----------------------------
(* Validates recorded sessions.  refs[k]: what call k returned as the only    *)
(* call of a process.  An event is <<client, "gate">> or                      *)
(* <<client, "ret", call, result, texts unchanged>>.                          *)
EXTENDS Session, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, s, st
vars == <<l, i, s, st>>
R == Trace[l]
Init == /\ l \in 1..Len(Trace)
        /\ i = 1
        /\ st = IF "crash" \in DOMAIN Trace[l] THEN "crash" ELSE Trace[l].op
        /\ s = IF "crash" \in DOMAIN Trace[l] \/ Trace[l].op = "stress" THEN Begin(1) ELSE Begin(Len(Trace[l].progs))

E == R.events[i]
Event == /\ st = "session" /\ i <= Len(R.events)
         /\ LET c == Next1(s, R.progs, R.sched) IN
            /\ E[1] = c
            /\ IF E[2] = "gate" THEN s' = Gate(s, R.progs, R.sched) /\ st' = st
               ELSE /\ E[3] = Calls(s, R.progs, c)
                    /\ s' = Return(s, R.progs, R.sched, c, E[4])
                    /\ st' = IF E[4] = R.refs[E[3]] /\ E[5] = 1 THEN st ELSE "deviates"
         /\ i' = i + 1
         /\ l' = l

Number(k) == CHOOSE n \in 1..Len(R.refs) : ToString(n) = k
Unaffected == \A k \in 1..Len(R.results) : R.results[k][2] = R.refs[Number(R.results[k][1])]

Verdict == CASE st = "crash" -> {"C16"}
             [] st = "deviates" -> {"C16"}
             [] st = "session" -> IF Over(s, R.progs) /\ R.shared = 0 /\ R.alias = 0 THEN {} ELSE {"C16"}
             [] st = "stress" -> IF Unaffected /\ R.shared = 0 THEN {} ELSE {"C16"}
Judge == /\ st \in {"crash", "deviates", "stress"} \/ (st = "session" /\ i > Len(R.events))
         /\ PrintT("VERDICT " \o ToJson(<<R.id, st, FALSE, Verdict,
                IF st # "session" THEN {} ELSE {<<R.events[k][2], IF R.events[k][2] = "ret" THEN R.events[k][3] ELSE 0>> : k \in 1..Len(R.events)}>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, i, s>>
Next == Event \/ Judge
Spec == Init /\ [][Next]_vars
===============================================================================
