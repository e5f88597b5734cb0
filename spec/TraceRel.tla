------------------------------ MODULE TraceRel ------------------------------
(* Compares several runs of the real parser with each other.                  *)
(* kind "layout": the sources are laid out differently.  The machine reads    *)
(*   each of them first; if it finds the same meaning in all, so must the     *)
(*   parser.                                                                  *)
(* kind "flags": one source, several flag combinations.  What the machine     *)
(*   reads only matters for the comparison of the two string modes.           *)
(* A run is [v |-> source, ps |-> strings parsed, modes, ok, decls]; runs of  *)
(* a source with the same outcome are recorded once.                          *)
EXTENDS Match, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, i, m, st, means
vars == <<l, i, m, st, means>>
R == Trace[l]

(* What a document says: no positions, comments or names as written.          *)
Meaning(ds) ==
    LET name(k) == k[2]
        tag(t) == <<t[2], Strip(t[5])>>
        decl(d) == <<d[1], d[4], Map(name, d[6]), Map(name, d[7]), Map(tag, d[8]), Map(Strip, d[9])>>
    IN Map(decl, ds)
(* ... without the values                                                     *)
Outline(ds) ==
    LET name(k) == k[2]
        tag(t) == t[2]
        decl(d) == <<d[1], d[4], Map(name, d[6]), Map(name, d[7]), Map(tag, d[8])>>
    IN Map(decl, ds)

Sides == {R.runs[k].ps : k \in 1..Len(R.runs)}

(* i counts the sources; each is read once per string mode in use.            *)
Jobs == LET n == Len(R.srcs) IN
             [k \in 1..(n * Cardinality(Sides)) |->
                 <<((k - 1) % n) + 1, IF Sides = {0, 1} THEN (k - 1) \div n ELSE CHOOSE s \in Sides : TRUE>>]

Init == /\ l \in 1..Len(Trace)
        /\ i = 1
        /\ means = {}
        /\ m = [st |-> "none"]
        /\ st = IF "crash" \in DOMAIN Trace[l] THEN "crash" ELSE "run"

Begin == /\ st = "run" /\ m.st = "none" /\ i <= Len(Jobs)
         /\ m' = InitFile(R.srcs[Jobs[i][1]])
         /\ UNCHANGED <<l, i, st, means>>
Run == /\ st = "run" /\ m.st = "run"
       /\ m' = Step(m, R.srcs[Jobs[i][1]], Jobs[i][2] = 1)
       /\ UNCHANGED <<l, i, st, means>>
End == /\ st = "run" /\ m.st \in {"ok", "rej"}
       /\ means' = means \cup {<<Jobs[i][2], m.st = "ok" /\ ~m.odd, Meaning(m.decls), Outline(m.decls)>>}
       /\ i' = i + 1
       /\ m' = [st |-> "none"]
       /\ UNCHANGED <<l, st>>

(* The same meaning, in each string mode.                                     *)
Related == \A s \in Sides : Cardinality({x \in means : x[1] = s}) = 1
Valid == \A x \in means : x[2]

Runs(s) == {k \in 1..Len(R.runs) : R.runs[k].ps = s}
SameRuns(s) == \A a, b \in Runs(s) :
                   /\ R.runs[a].ok = R.runs[b].ok
                   /\ R.runs[a].ok = 1 => Meaning(R.runs[a].decls) = Meaning(R.runs[b].decls)
(* String parsing changes values only, if the machine agrees: an escaped brace *)
(* counts only when strings are not parsed, so they may end elsewhere.         *)
BothModes == (Valid /\ Cardinality({x[4] : x \in means}) = 1) => \A a, b \in 1..Len(R.runs) :
                 /\ R.runs[a].v = R.runs[b].v
                 /\ R.runs[a].ok = 1 /\ R.runs[b].ok = 1
                 => Outline(R.runs[a].decls) = Outline(R.runs[b].decls)

(* Flags change nothing at all, positions included.                           *)
SameFlags == \A s \in Sides : \A a, b \in Runs(s) :
                 /\ R.runs[a].ok = R.runs[b].ok
                 /\ R.runs[a].ok = 1 => R.runs[a].decls = R.runs[b].decls

Class == CASE R.kind = "flags" -> IF \E k \in 1..Len(R.runs) : R.runs[k].ok = 1 THEN "flags" ELSE "flags, malformed"
           [] R.kind = "layout" -> IF ~Valid THEN "not well-formed" ELSE IF Related THEN "layout" ELSE "unrelated"

Good == CASE R.kind = "flags" -> SameFlags /\ BothModes
          [] R.kind = "layout" -> (Valid /\ Related) => (\A s \in Sides : SameRuns(s)) /\ BothModes

Judge == /\ st = "crash" \/ (st = "run" /\ m.st = "none" /\ i > Len(Jobs))
         /\ PrintT("VERDICT " \o ToJson(<<R.id, IF st = "crash" THEN st ELSE Class, st = "run" /\ Class \in {"unrelated", "not well-formed"},
                IF st = "crash" THEN {"C01", "C10"} ELSE IF Good THEN {} ELSE {"C10"}, {}>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, i, m, means>>
Next == Begin \/ Run \/ End \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
