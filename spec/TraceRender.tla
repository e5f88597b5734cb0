---------------------------- MODULE TraceRender -----------------------------
(* Validates recorded renderings (ops "render" and "text").                   *)
(* failat > 0: the writer accepts only failat - 1 characters and then fails.  *)
EXTENDS Render, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, r, p, st, cov
vars == <<l, r, p, st, cov>>
R == Trace[l]
NoRepl == <<>>

Init == /\ l \in 1..Len(Trace)
        /\ cov = {}
        /\ IF "crash" \in DOMAIN Trace[l] THEN st = "crash" /\ r = 0 /\ p = 0
           ELSE IF Trace[l].op = "text"
           THEN st = "text" /\ r = TInit(Trace[l].tree) /\ p = 0
           ELSE st = "render" /\ r = RInit(Trace[l].tree, Trace[l].repls) /\ p = RInit(Trace[l].tree, NoRepl)

(* Files of a package come in any order; the traces have at most one file.    *)
Cand(x) == IF Candidates(x.w) = {} THEN 0 ELSE 1
Seen(x) == IF Cand(x) = 0 THEN <<"leave", K(TopNode(x.w))>> ELSE <<"enter", K(NextNode(x.w, 1))>>

Step == \/ /\ st = "text" /\ r.st = "run"
           /\ r' = TStep(r)
           /\ cov' = IF r.todo = <<>> THEN cov ELSE cov \cup {<<"text", K(Head(r.todo))>>}
           /\ UNCHANGED <<l, p, st>>
        \/ /\ st = "render" /\ r.w.st = "run"
           /\ r' = RStep(r, R.repls, Cand(r))
           /\ cov' = cov \cup {Seen(r) \o <<ReplFor(R.repls, IF Cand(r) = 0 THEN TopNode(r.w) ELSE NextNode(r.w, 1)) # 0>>}
           /\ UNCHANGED <<l, p, st>>
        \/ /\ st = "render" /\ r.w.st # "run" /\ p.w.st = "run"
           /\ p' = RStep(p, NoRepl, Cand(p))
           /\ UNCHANGED <<l, r, st, cov>>

Finished_ == \/ st = "crash"
             \/ st = "text" /\ r.st # "run"
             \/ st = "render" /\ r.w.st # "run" /\ p.w.st # "run"

Failed(out) == R.failat > 0 /\ Len(out) > R.failat - 1
(* the write that fails may take all or a part of its characters (R.full);
   an accepted result for a machine that wrote out and ended in an error or not *)
Fits(out, err) ==
    IF Failed(out)
    THEN R.err # "none" /\ Prefix(R.out, out) /\ (R.full = 0 => Len(R.out) <= R.failat - 1) /\ R.after = 0
    ELSE IF err THEN R.err # "none" /\ Prefix(R.out, out)
    ELSE R.err = "none" /\ R.out = out

IsPiece(n) == K(n) \in {"Parsed", "Text", "Comma", "Escaped", "Hyphen", "Math", "NBSP", "Space", "Macro", "Accent"}
RECURSIVE AllPieces(_)
AllPieces(n) == IsPiece(n) /\ \A i \in 1..Len(Kids(n)) : AllPieces(Kids(n)[i])

Verdict ==
    CASE st = "crash" -> {"C01", IF R.op = "text" THEN "C13" ELSE "C15"}
      [] st = "text" ->
           IF ~AllPieces(R.tree) THEN {}
           ELSE IF Fits(r.out, r.st = "err") /\ R.same = 1 THEN {} ELSE {"C13"}
      [] st = "render" ->
           IF /\ Fits(r.out, r.err)
              /\ IF Failed(r.out) THEN Prefix(R.calls, r.calls) ELSE R.calls = r.calls
              /\ (R.perr # "none") = p.err
              /\ IF p.err THEN Prefix(R.plain, p.out) ELSE R.plain = p.out
           THEN {} ELSE {"C15"}

Judge == /\ Finished_
         /\ PrintT("VERDICT " \o ToJson(<<R.id, st, st = "text" /\ ~AllPieces(R.tree), Verdict, cov>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, r, p, cov>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
