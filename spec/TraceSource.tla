----------------------------- MODULE TraceSource ------------------------------
(* Validates recorded parses of sources of several kinds.                     *)
(* A result is a record [nofile, ok, ekind, errs, decls, coms, fdoc, name,    *)
(* errname, lc].                                                              *)
(*   op "read": ref is the result for the delivered text given as bytes, got  *)
(*     and biber the results for the reader.                                  *)
(*   op "kinds": groups of source kinds with equal results.                   *)
(*   op "package": paths, alone (the result of each path parsed alone), files *)
(*     (what the package holds), err.                                         *)
EXTENDS Match, Source, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, r, st
vars == <<l, r, st>>
R == Trace[l]
Op == R.op

Init == /\ l \in 1..Len(Trace)
        /\ r = IF "crash" \in DOMAIN Trace[l] THEN 0
               ELSE IF Trace[l].op = "read" THEN ReadInit
               ELSE IF Trace[l].op = "package" THEN LoadInit ELSE 0
        /\ st = IF "crash" \in DOMAIN Trace[l] THEN "crash" ELSE "run"

Parsed(p) == R.alone[p].nofile = 0 /\ R.alone[p].ok = 1
SrcStep ==
        /\ st = "run"
        /\ CASE Op = "read" /\ r.st = "reading" -> r' = ReadStep(r, R.sched, R.len)
             [] Op = "package" /\ r.i <= Len(R.paths) -> r' = LoadStep(r, R.paths, [p \in 1..Len(R.alone) |-> Parsed(p)])
             [] OTHER -> FALSE
        /\ UNCHANGED <<l, st>>
Over == CASE Op = "read" -> r.st # "reading"
          [] Op = "package" -> r.i > Len(R.paths)
          [] OTHER -> TRUE

Named(x) == x.name = 1 /\ x.errname = 1
NoTree(x) == x.nofile = 1 /\ x.ok = 0

(* bytes is the kind everything is compared with                              *)
ReadOk ==
    IF r.st = "failed"
    THEN NoTree(R.got) /\ R.got.ekind \in {"same", "wraps"} /\ R.biber.nofile = 1 /\ R.biber.ekind \in {"same", "wraps"}
    ELSE /\ R.got = R.ref /\ Named(R.got)
         /\ IF R.ref.ok = 1 THEN R.biber.ok = 1 /\ Shapes(R.biber.decls) = Shapes(R.ref.decls) /\ Values(R.biber.decls) = Values(R.ref.decls)
            ELSE R.biber.ok = 0 /\ R.biber.nofile = 1 /\ R.biber.errs = R.ref.errs

Readable == {"string", "bytes", "buffer", "used buffer", "bytes reader", "strings reader", "bufio", "one byte", "data with eof", "half", "roomy bytes", "roomy buffer", "string buffer",
             "empty reads", "limited", "section", "file", "open file", "pipe", "named reader"} \ (IF "bare" \in DOMAIN R /\ R.bare = 2 THEN {"file"} ELSE {})
Unreadable == {"missing", "directory", "not a directory", "failing", "failing later", "failing with data", "nil buffer", "int", "runes", "func", "closed file", "bytes array", "struct"}
KindsOk ==
    \A g \in 1..Len(R.groups) :
        LET x == R.groups[g].res
            ks == {R.groups[g].kinds[i] : i \in 1..Len(R.groups[g].kinds)}
        IN \/ ks \subseteq Unreadable /\ NoTree(x) /\ x.ekind # "none"
           \/ ks \ {"nil bytes"} = Readable /\ Named(x) /\ x.nofile = 0

(* The package holds exactly the trees of the good files, under their paths.  *)
PackageOk ==
    /\ {R.files[i].path : i \in 1..Len(R.files)} = r.files
    /\ \A i \in 1..Len(R.files) : R.files[i].decls = R.alone[R.files[i].path].decls /\ R.files[i].name = 1
    /\ IF r.first = 0 THEN R.err.ekind = "none"
       ELSE R.err = [ekind |-> R.alone[r.first].ekind, errs |-> R.alone[r.first].errs, path |-> r.first]
    /\ R.nopkg = 0

(* C06: what did not parse is not handed out by Biber.Parse or in a package. *)
Withheld ==
    CASE Op = "read" -> (r.st = "failed" \/ R.ref.ok = 0 => R.biber.ok = 0 /\ R.biber.nofile = 1)
                        /\ (R.ref.ok = 0 => R.got.ok = 0 /\ R.got.ekind = "list")
      [] Op = "package" -> {R.files[i].path : i \in 1..Len(R.files)} \subseteq r.files
      [] OTHER -> TRUE

Judge == /\ st = "crash" \/ (st = "run" /\ Over)
         /\ PrintT("VERDICT " \o ToJson(<<R.id, IF st = "crash" THEN st ELSE Op, FALSE,
              IF st = "crash" THEN {"C01", "C17"}
              ELSE IF CASE Op = "read" -> ReadOk [] Op = "kinds" -> KindsOk [] Op = "package" -> PackageOk THEN {} ELSE {"C17"} \cup (IF Withheld THEN {} ELSE {"C06"}),
              IF st = "crash" THEN {} ELSE IF Op = "read" THEN {<<"read", r.st, R.ref.ok>>} ELSE {Op}>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, r>>
Next == SrcStep \/ Judge
Spec == Init /\ [][Next]_vars
===============================================================================
