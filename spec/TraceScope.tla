----------------------------- MODULE TraceScope ------------------------------
(* Validates histories of real scopes.  A recorded step is                    *)
(* <<operation, result, outers, contents, lookups>>: the object returned (0:  *)
(* none, -1: one that was never given), the outer scope of each scope, and    *)
(* for each scope the objects it holds and what Lookup says, by name.         *)
EXTENDS Scope, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, ss, st, pool
vars == <<l, i, ss, st, pool>>
R == Trace[l]
S == R.steps[i]

Init == /\ l \in 1..Len(Trace)
        /\ i = 1
        /\ ss = <<>>
        /\ pool = IF "crash" \in DOMAIN Trace[l] THEN <<>> ELSE Trace[l].pool
        /\ st = IF "crash" \in DOMAIN Trace[l] THEN "crash" ELSE "run"

Contents(s) == [n \in DOMAIN s.objs |-> s.objs[n]]
Same(rec, s) == \A k \in 1..Len(rec) : rec[k][2] = IF In(s, rec[k][1]) THEN s.objs[rec[k][1]] ELSE 0
Agrees(r) == /\ S[2] = r.res
             /\ Len(S[3]) = Len(r.ss)
             /\ \A k \in 1..Len(r.ss) :
                  /\ S[3][k] = r.ss[k].outer
                  /\ {<<x[1], x[2]>> : x \in {S[4][k][j] : j \in 1..Len(S[4][k])}}
                        = {<<n, r.ss[k].objs[n]>> : n \in DOMAIN r.ss[k].objs}
                  /\ Same(S[5][k], r.ss[k])
Step == /\ st = "run" /\ i <= Len(R.steps)
        /\ LET r == Do(ss, S[1], pool) IN
           /\ st' = IF Agrees(r) THEN st ELSE "bad"
           /\ ss' = r.ss
        /\ pool' = Rename(pool, S[1])
        /\ i' = i + 1
        /\ l' = l
PosOK == /\ \A o \in 1..Len(R.pool) : R.pos[o] = Pos(R.pool[o])
         /\ \A o \in 1..Len(R.pool) : R.last[o] = Pos(pool[o])

Judge == /\ st \in {"bad", "crash"} \/ (st = "run" /\ i > Len(R.steps))
         /\ PrintT("VERDICT " \o ToJson(<<R.id, st, FALSE, IF st = "crash" THEN {"C01", "C19"}
                     ELSE IF st = "run" /\ PosOK THEN {} ELSE {"C19"},
                     IF st = "crash" THEN {} ELSE {<<R.steps[k][1][1], R.steps[k][2] = 0>> : k \in 1..Len(R.steps)}>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, i, ss, pool>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
==============================================================================
