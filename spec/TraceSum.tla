------------------------------ MODULE TraceSum ------------------------------
(* Files put together from parts, each part a file of its own that ends in a  *)
(* blank line.  What the parser finds in the whole is what it finds in the    *)
(* parts, one after the other, moved to where the part stands; so files far   *)
(* longer than the machine of Parser.tla can read are decided by their parts. *)
(* (MCSum checks that the machine has this property.)                         *)
(* A record: parts, distinct, [n |-> characters, lines, ok, decls, coms, lc]; *)
(* seq, their order; whole, [ok, decls, coms, lc, errs]; ps.  Only the last   *)
(* part may be malformed.                                                     *)
EXTENDS Match, Shift, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, j, d, c, x, off, lines, bad, st
vars == <<l, j, d, c, x, off, lines, bad, st>>
R == Trace[l]
W == R.whole

Init == /\ l \in 1..Len(Trace)
        /\ j = 0 /\ d = 0 /\ c = 0 /\ x = 0 /\ off = 0 /\ lines = 0 /\ bad = {}
        /\ st = IF "crash" \in DOMAIN Trace[l] THEN "crash" ELSE "run"

V == IF R.ps = 1 THEN "C05" ELSE "C04"
Part(n) == R.parts[R.seq[n]]
Good == \A n \in 1..Len(R.seq) : Part(n).ok = 1

From(s, n, k) == SubSeq(s, n + 1, Min2(n + k, Len(s)))

(* The next part that is well-formed.                                         *)
Take == /\ st = "run" /\ j < Len(R.seq) /\ Part(j + 1).ok = 1
        /\ LET p == Part(j + 1)
               got == From(W.decls, d, Len(p.decls))
               same == Shapes(got) = Shapes(p.decls)
               val == Values(got) = Values(p.decls)
           IN bad' = bad
                \cup (IF ~same THEN {IF Good THEN "C03" ELSE "C07"} ELSE {})
                \cup (IF same /\ ~val THEN {IF Good THEN V ELSE "C07"} ELSE {})
                \cup (IF same /\ val /\ Wheres(got) # Wheres(Map(LAMBDA z : ShiftDecl(z, off), p.decls)) THEN {IF Good THEN "C09" ELSE "C07"} ELSE {})
                \cup (IF Good /\ same /\ Docs(got) # Docs(Map(LAMBDA z : ShiftDecl(z, off), p.decls)) THEN {"C08"} ELSE {})
                \cup (IF Good /\ From(W.coms, c, Len(p.coms)) # ShiftComments(p.coms, off) THEN {"C08"} ELSE {})
                \cup (IF Good /\ same /\ val /\ From(W.lc, x, Len(p.lc)) # [n \in 1..Len(p.lc) |-> <<p.lc[n][1] + off, p.lc[n][2] + lines, p.lc[n][3], p.lc[n][4]>>]
                      THEN {"C09"} ELSE {})
        /\ LET p == Part(j + 1) IN d' = d + Len(p.decls) /\ c' = c + Len(p.coms) /\ x' = x + Len(p.lc) /\ off' = off + p.n /\ lines' = lines + p.lines
        /\ j' = j + 1
        /\ UNCHANGED <<l, st>>

Verdict == bad
    \cup (IF Good THEN (IF W.ok = 0 \/ Len(W.decls) # d THEN {"C03", V} ELSE {}) \cup (IF Len(W.coms) # c THEN {"C08"} ELSE {})
          ELSE (IF W.ok = 1 \/ W.errs = <<>> THEN {"C06"} ELSE IF W.errs[1][1] < off - 2 THEN {"C07"} ELSE {})
               \cup (IF Len(W.decls) < d THEN {"C07"} ELSE {}))

Over == IF j = Len(R.seq) THEN TRUE ELSE Part(j + 1).ok = 0
Judge == /\ st = "crash" \/ (st = "run" /\ Over)
         /\ PrintT("VERDICT " \o ToJson(<<R.id, IF st = "crash" THEN st ELSE IF Good THEN "whole" ELSE "whole, malformed", FALSE,
                IF st = "crash" THEN {"C01", "C03", "C07"} ELSE Verdict, {}>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, j, d, c, x, off, lines, bad>>
Next == Take \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
