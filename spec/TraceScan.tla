----------------------------- MODULE TraceScan -----------------------------
(* Validates recorded token streams of scanner.Scanner: the lexical machine   *)
(* scans the same source, one token per step, and each recorded token must be *)
(* the machine's, up to the first lexical error.                              *)
(* A recorded token is <<kind, offset, literal, handler calls so far, class>>.*)
EXTENDS Scanner, FiniteSets, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES l, s, k, st, cov
vars == <<l, s, k, st, cov>>

R == Trace[l]
Crashed == "crash" \in DOMAIN R

Name(t) == IF t = "StringNBSP" THEN "NBSP" ELSE t
ClassOf(t) ==
    CASE t \in {"Ident", "String", "BraceString", "Number"} -> 1
      [] t \in {"DoubleQuote", "StringLBrace", "StringRBrace", "StringSpace", "StringNBSP",
                "StringContents", "StringHyphen", "StringMath", "StringComma",
                "StringBackslash", "StringAccent", "StringMacro"} -> 2
      [] t \in {"Assign", "LParen", "LBrace", "RParen", "RBrace", "Concat", "Comma"} -> 4
      [] t \in {"Abbrev", "Comment", "Preamble", "BibEntry"} -> 8
      [] OTHER -> 0

Init == /\ l \in 1..Len(Trace)
        /\ s = ScanInit(Trace[l].src)
        /\ k = 1
        /\ cov = {}
        /\ st = IF "crash" \in DOMAIN Trace[l] THEN "crash" ELSE "run"

Matches(r, tk) == /\ r[1] = Name(tk.t)
                  /\ r[2] = tk.p
                  /\ r[3] = tk.l
                  /\ r[4] = 0           \* nothing was wrong so far ...
                  /\ r[5] = ClassOf(tk.t)

(* ... except that the character behind a token has been looked at           *)
MatchesButError(r, tk) == /\ r[1] = Name(tk.t) /\ r[2] = tk.p /\ r[3] = tk.l
                          /\ r[5] = ClassOf(tk.t)

Context == IF s.eq = 0 THEN "outside/" \o s.prev
           ELSE (IF s.eq = 34 THEN "quoted/" ELSE "braced/")
                \o (IF s.d = 0 THEN "0" ELSE "n")

(* In a quoted string a closing brace that closes nothing is left open.      *)
Unclear(tk) == tk.odd \/ (tk.t = "StringRBrace" /\ s.eq = 34 /\ s.d = 0)

Run ==
    /\ st = "run"
    /\ LET r == Scan(R.src, s, R.ps = 1)
           tk == r.tok
           nextBad == tk.t # "EOF" /\ Scan(R.src, r.s, R.ps = 1).tok.t = "Bad"
       IN /\ cov' = cov \cup {<<Context, tk.t>>}
          /\ s' = r.s
          /\ k' = k + 1
          /\ l' = l
          /\ st' = CASE tk.t = "Bad" -> "lexerr"
                     [] Unclear(tk) -> "odd"
                     [] k > Len(R.toks) -> "short"
                     [] ~(IF nextBad THEN MatchesButError(R.toks[k], tk) ELSE Matches(R.toks[k], tk)) -> "differs"
                     [] tk.t = "EOF" -> "end"
                     [] OTHER -> "run"

(* Whatever the text, the stream ends at the end of the source and every     *)
(* error was handled and counted.                                            *)
Ending == /\ R.eof = 1
          /\ R.handled = R.count
          /\ R.quiet = <<Len(R.toks), R.count>>      \* the same without a handler
          /\ R.count >= Cardinality({i \in 1..Len(R.toks) : R.toks[i][1] = "Illegal"})   \* each is an error
          /\ \A i \in 1..Len(R.errs) : R.errs[i] >= 0 /\ R.errs[i] <= Len(R.src)
          /\ Len(R.toks) > 0
          /\ R.toks[Len(R.toks)][1] = "EOF"
          /\ R.toks[Len(R.toks)][2] = Len(R.src)
          /\ \A i \in 1..(Len(R.toks) - 1) : R.toks[i][2] <= R.toks[i + 1][2]

Verdict ==
    CASE st = "crash" -> {"C01", "C02"}
      [] st \in {"short", "differs"} -> {"C02"} \cup (IF R.eof = 1 THEN {} ELSE {"C01"})
      [] st = "end" -> IF Ending /\ R.count = 0 /\ Len(R.toks) = k - 1 THEN {} ELSE {"C02"}
      [] st = "lexerr" -> (IF Ending /\ R.count > 0 /\ Len(R.toks) >= k - 1 THEN {} ELSE {"C02"})
                          \cup (IF R.eof = 1 THEN {} ELSE {"C01"})
      [] st = "odd" -> IF R.eof = 1 THEN {} ELSE {"C01", "C02"}

Judge == /\ st \notin {"run", "done"}
         /\ PrintT("VERDICT " \o ToJson(<<R.id, st, st = "odd", Verdict \cup (IF st # "crash" /\ R.srcmod = 1 THEN {"C16"} ELSE {}), cov>>))
         /\ st' = "done"
         /\ UNCHANGED <<l, s, k, cov>>
Next == Run \/ Judge
Spec == Init /\ [][Next]_vars

(* The machine never loses or repeats text: it moves on, over white space    *)
(* only, and a token is its literal plus delimiters.                         *)
Progress == [][Run =>
    LET tk == Scan(R.src, s, R.ps = 1).tok IN
    /\ s'.o = tk.e
    /\ tk.t # "EOF" => s'.o > s.o \/ tk.t = "Bad"
    /\ \A o \in s.o..(tk.p - 1) : At(R.src, o) \in Space
    /\ s.eq # 0 => tk.p = s.o
    /\ tk.e <= Len(R.src) \/ tk.t = "Bad"]_vars
============================================================================
