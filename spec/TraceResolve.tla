---------------------------- MODULE TraceResolve ----------------------------
(* Validates recorded calls of Biber.Resolve with a pipeline of resolvers.    *)
EXTENDS Resolve, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, m, st
vars == <<l, m, st>>
R == Trace[l]
Passes == 1 + R.twice

Init == /\ l \in 1..Len(Trace)
        /\ st = IF "crash" \in DOMAIN Trace[l] THEN "crash" ELSE "run"
        /\ m = IF "crash" \in DOMAIN Trace[l] THEN [st |-> "end", odd |-> FALSE] ELSE PInit(Trace[l].tree)

Run == /\ st = "run" /\ m.st = "run"
       /\ m' = PStep(m, R.pipe, Passes)
       /\ UNCHANGED <<l, st>>

RECURSIVE Loose(_)               \* a tree up to the number of blanks in author names
Loose(n) == IF K(n) = "Authors" THEN <<"Authors", [i \in 1..Len(Kids(n)) |->
                 [j \in 1..4 |-> Squeeze(Str(Kids(Kids(n)[i])[j]))]]>>
            ELSE <<n[1], n[4], n[5], [i \in 1..Len(n[6]) |-> Loose(n[6][i])]>>

(* the recorded entries; a field is <<name, value>>                           *)
ObsEntry(e) == <<e[1], e[2], {<<e[3][i][1], Loose(e[3][i][2])>> : i \in 1..Len(e[3])}>>
Observed == [i \in 1..Len(R.entries) |-> ObsEntry(R.entries[i])]
LooseEntry(d) ==
    LET ts == TagsOf(d) IN
    <<Str(d), KeyOf(d),
      {<<Str(ts[i]), Loose(Kids(ts[i])[1])>> :
         i \in {j \in 1..Len(ts) : \A k \in (j + 1)..Len(ts) : Str(ts[k]) # Str(ts[j])}}>>
LooseFile(f) == Map1(LooseEntry, BibDecls(f))
Allowed(n) ==
    CASE K(n) = "BibDecl" -> {<<LooseEntry(n)>>}
      [] K(n) = "File" -> {LooseFile(n)}
      [] K(n) = "Package" -> {Cat([i \in 1..Len(o) |-> LooseFile(Kids(n)[o[i]])]) : o \in Orders(1..Len(Kids(n)))}
      [] OTHER -> {}
Resolvable(n) == K(n) \in {"BibDecl", "File", "Package"}

NoDup == \A i \in 1..Len(R.entries) :
           \A j, k \in 1..Len(R.entries[i][3]) : R.entries[i][3][j][1] = R.entries[i][3][k][1] => j = k

(* Resolvers that change trees: their effect is C13's; which run, in what     *)
(* order and what an error does is C18's; the entries are C11's.              *)
Changes == \E i \in 1..Len(R.pipe) : R.pipe[i][1] \in {"escape", "render"}
HasAuthors == \E i \in 1..Len(R.pipe) : R.pipe[i][1] = "authors"

TreeOk == Loose(R.after) = Loose(m.t)
EntriesOk == Observed \in Allowed(m.t) /\ NoDup
Expected == IF m.st = "fail" THEN R.err # "none" /\ R.nilentries = 1
            ELSE IF ~Resolvable(m.t) THEN R.err # "none" /\ R.nilentries = 1
            ELSE R.err = "none" /\ EntriesOk

Injected == m.st = "fail" /\ R.pipe[m.i][1] = "fail"

(* packages visit their files in any order, so what was changed before a      *)
(* failure is open                                                            *)
Verdict ==
    IF st = "crash" THEN {"C01", "C11", "C18", "C13"}
    ELSE IF m.odd THEN {}
    ELSE (IF m.st = "end" /\ Resolvable(m.t) /\ (R.err # "none" \/ ((TreeOk \/ ~(Changes \/ HasAuthors)) /\ ~EntriesOk)) THEN {"C11"} ELSE {})
         \cup (IF m.st = "end" /\ ~Resolvable(m.t) /\ (R.err = "none" \/ R.nilentries = 0) THEN {"C11"} ELSE {})
         \cup (IF \/ R.ran # m.ran
                  \/ m.st = "fail" /\ (R.err = "none" \/ R.nilentries = 0)
                  \/ m.st = "end" /\ Resolvable(m.t) /\ R.err # "none"
                  \/ Injected /\ (R.err \notin {"wraps", "same"} \/ \A i \in 1..Len(R.nums) : R.nums[i] # m.i - 1)
                  \/ m.st = "end" /\ ~TreeOk
               THEN {"C18"} ELSE {})
         \cup (IF Changes /\ (IF m.st = "end" THEN ~TreeOk \/ (Resolvable(m.t) /\ R.err # "none") ELSE R.err = "none")
               THEN {"C13"} ELSE {})
         \cup (IF HasAuthors /\ (IF m.st = "end" THEN ~TreeOk \/ (Resolvable(m.t) /\ R.err # "none") ELSE R.err = "none")
               THEN {"C12"} ELSE {})

Cov == {<<IF st = "crash" THEN "crash" ELSE m.st>>} \cup
       (IF st = "crash" THEN {} ELSE {<<"ran", R.pipe[i][1], K(R.tree)>> : i \in 1..(IF m.st = "fail" THEN m.i ELSE Len(R.pipe))})

Judge == /\ (st = "run" /\ m.st # "run") \/ st = "crash"
         /\ PrintT("VERDICT " \o ToJson(<<R.id, IF st = "crash" THEN st ELSE m.st, m.odd, Verdict, Cov>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, m>>
Next == Run \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
