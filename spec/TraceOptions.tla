---------------------------- MODULE TraceOptions -----------------------------
(* Validates observations of instances built from a list of options: two      *)
(* instances from the same options, one without any built afterwards, and the *)
(* first once more.  An observation is a record [strings, all, runs, out, err]*)
(* (one run per call of Resolve).                                             *)
EXTENDS Options, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, b, st, bad
vars == <<l, i, b, st, bad>>
R == Trace[l]

Init == /\ l \in 1..Len(Trace)
        /\ i = 1
        /\ b = Fresh
        /\ bad = {}
        /\ st = IF "crash" \in DOMAIN Trace[l] THEN "crash" ELSE "build"

Option == /\ st = "build" /\ i <= Len(R.opts)
          /\ b' = ApplyOption(b, R.opts[i])
          /\ i' = i + 1
          /\ UNCHANGED <<l, st, bad>>
Built == /\ st = "build" /\ i > Len(R.opts)
         /\ st' = "look" /\ i' = 1
         /\ UNCHANGED <<l, b, bad>>

Begins(a, c) == Len(a) <= Len(c) /\ a = SubSeq(c, 1, Len(a))
RunOk(x, r) ==
    /\ x.ran = r.ran
    /\ IF r.err THEN /\ x.err = "wraps" /\ x.entries = 0
                     /\ \E k \in 1..Len(x.nums) : x.nums[k] = r.at - 1
       ELSE x.err = "none" /\ x.entries = 1 /\ x.last = (IF r.marks = <<>> THEN 0 ELSE r.marks[Len(r.marks)])
    /\ x.marks = r.marks
Looks(o, inst) ==
    LET p == Rendered(inst, Probe, <<>>) IN
    /\ o.strings = (IF HasBit(inst.mode, 2) THEN 1 ELSE 0)
    /\ o.all = (IF HasBit(inst.mode, 16) THEN 1 ELSE 0)
    /\ \A k \in 1..Len(o.runs) : RunOk(o.runs[k], Resolve(inst))
    /\ IF p.err THEN o.err # "none" /\ Begins(o.out, p.out) ELSE o.err = "none" /\ o.out = p.out

Look == /\ st = "look" /\ i <= Len(R.insts)
        /\ bad' = IF Looks(R.insts[i], IF R.plain[i] = 1 THEN Fresh ELSE IF R.plain[i] = 2 THEN New(R.other) ELSE b) THEN bad ELSE bad \cup {i}
        /\ i' = i + 1
        /\ UNCHANGED <<l, b, st>>

Verdict == CASE st = "crash" -> {"C01", "C18", "C16"}
             [] 1 \in bad -> {"C18"}
             [] bad # {} -> {"C16"}
             [] OTHER -> {}
Judge == /\ st = "crash" \/ (st = "look" /\ i > Len(R.insts))
         /\ PrintT("VERDICT " \o ToJson(<<R.id, IF st = "crash" THEN st ELSE "instances", FALSE, Verdict,
                IF st = "crash" THEN {} ELSE {R.opts[k] : k \in 1..Len(R.opts)}>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, i, b, bad>>
Next == Option \/ Built \/ Look \/ Judge
Spec == Init /\ [][Next]_vars
==============================================================================
