------------------------------- MODULE MCSource -------------------------------
(* All reader schedules of at most N chunks, and all lists of at most N files *)
(* out of a pool; prints them for the replay into the code.                   *)
EXTENDS Source, TLC, Json, IOUtils
N == atoi(IOEnv.N)
Sizes == {0, 1, 2, 5}
Ends == {"eof", "dataeof", "fail", "datafail"}
Pool == 1..6                    \* 1, 2 are good
Good == [p \in Pool |-> p <= 2 \/ p = 6]
Long == 9
VARIABLES what, sched, r, k
vars == <<what, sched, r, k>>
Seqs(S, n) == UNION {[1..j -> S] : j \in 0..n}
Init == \/ /\ what = "read" /\ k = LoadInit
           /\ sched \in {<<s, e>> : s \in Seqs(Sizes, N), e \in Ends}
           /\ r = ReadInit
           /\ PrintT("SCHED " \o ToJson(sched))
        \/ /\ what = "load" /\ r = ReadInit
           /\ sched \in Seqs(Pool, N)
           /\ k = LoadInit
           /\ PrintT("PATHS " \o ToJson(sched))
Next == \/ /\ what = "read" /\ r.st = "reading" /\ r' = ReadStep(r, sched, Long) /\ UNCHANGED <<what, sched, k>>
        \/ /\ what = "load" /\ k.i <= Len(sched) /\ k' = LoadStep(k, sched, Good) /\ UNCHANGED <<what, sched, r>>
Spec == Init /\ [][Next]_vars

RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
(* However the text is cut up, all of it arrives, or a failure is seen.       *)
Whole == what = "read" /\ r.st = "text" => r.got = (IF Sum(sched[1]) < Long THEN Sum(sched[1]) ELSE Long)
(* Failing files never keep the others out, and the first one's error wins.   *)
Loaded == what = "load" /\ k.i > Len(sched) =>
    /\ k.files = {sched[i] : i \in {j \in 1..Len(sched) : Good[sched[j]]}}
    /\ k.first = (IF \A i \in 1..Len(sched) : Good[sched[i]] THEN 0
                  ELSE sched[CHOOSE i \in 1..Len(sched) : ~Good[sched[i]] /\ \A j \in 1..(i - 1) : Good[sched[j]]])
===============================================================================
