------------------------------- MODULE MCDoc -------------------------------
(* Every document the writer (Doc.tla) can build in LEN pieces, for a family *)
(* SET of documents, is understood by the parser machine the way the writer  *)
(* meant it; and cut off anywhere before a declaration is complete it is     *)
(* malformed, with all that was complete delivered.  The sources are printed *)
(* for replay into the code.                                                 *)
(*   strings raw   one field, one delimiter, all contents                    *)
(*   decls         all kinds of declarations with the simplest values        *)
(*   layout        a few declarations, all layout                            *)
(*   all           everything (for simulation)                               *)
EXTENDS Parser, IOUtils, Randomization
D == INSTANCE Doc

Fam == IOEnv.SET
Budget == atoi(IOEnv.LEN)
Gap == atoi(IOEnv.GAPS)
Raw == Fam = "raw" \/ (Fam \in {"all", "layout"} /\ IOEnv.PS = "0")
Parse == ~Raw

(* for simulation a few of the possible steps are drawn                      *)
Few(k, S) == IF Fam = "all" THEN RandomSubset(Min2(k, Cardinality(S)), S) ELSE S
Gaps(k) == CASE Fam = "layout" -> {"none", "nl", "com", "nlcom", "gap"}
             [] Fam = "all" -> IF RandomElement(1..5) < k THEN {"none"} ELSE {RandomElement({"sp", "nl", "com", "nlcom", "comnl", "coms", "gap"})}
             [] OTHER -> {"none"}
FewGaps(k) == IF Fam = "layout" THEN {"none", "com"} ELSE Gaps(k)
(* there may be white space behind the last token                            *)
Apart(k) == Gaps(k) \ {"none"}

Entries == IF Fam = "layout" THEN {<<64, 97>>} ELSE {<<64, 97>>, <<64, 77, 105, 115, 99, 95>>, <<64, 115, 116, 114, 105, 110, 103, 115>>}
Strings == IF Fam = "layout" THEN {<<64, 115, 116, 114, 105, 110, 103>>} ELSE {<<64, 115, 116, 114, 105, 110, 103>>, <<64, 83, 116, 114, 73, 110, 71>>}
Pres == {<<64, 112, 114, 101, 97, 109, 98, 108, 101>>}
Opening == IF Fam \in {"decls", "all"} THEN {123, 40} ELSE {123}
Keys == IF Fam = "layout" THEN {<<107>>} ELSE {<<107>>, <<49, 50>>, <<45, 47, 58>>}
Names == IF Fam = "layout" THEN {<<116>>} ELSE {<<116>>, <<84, 105, 45, 49>>}

VARIABLES w, n
vars == <<w, n>>

One(s) == [D!Blank EXCEPT !.src = s, !.ph = "operand", !.tl = 1,
                          !.d = [D!NoDecl EXCEPT !.k = "Bib", !.ty = <<97>>, !.op = 123, !.key = <<<<3, <<107>>>>>>, !.pend = <<5, <<116>>, <<>>>>]]
Init == n = 0 /\ w = IF Fam \in {"strings", "raw"} THEN One(<<64, 97, 123, 107, 44, 116, 61>>) ELSE D!Blank

Strs == Fam # "decls"
Full == Fam \in {"strings", "raw", "all"}

TopLevel ==
    /\ w.ph = "top" /\ Fam \notin {"strings", "raw"}
    /\ \/ \E g \in Gaps(3), s \in Entries : w' = D!Start(w, g, s, "Bib", "open")
       \/ \E g \in Gaps(3), s \in Strings : w' = D!Start(w, g, s, "Abbrev", "aopen")
       \/ \E g \in Gaps(3), s \in Pres : w' = D!Start(w, g, s, "Preamble", "popen")
       \/ w.bib /\ \E g \in FewGaps(3) : w' = D!Comma(w, g, "top")
       \/ \E g \in Apart(1) : w' = [D!Layout(w, g) EXCEPT !.ph = "end"]
OpenIt == \E g \in FewGaps(3), c \in Opening :
            \/ w.ph = "open" /\ w' = D!Open(w, g, c, "items")
            \/ w.ph = "aopen" /\ w' = D!Open(w, g, c, "aname")
            \/ w.ph = "popen" /\ w' = D!Open(w, g, c, "operand")
Items == \/ w.ph = "items" /\ \/ \E g \in Gaps(3), s \in Keys : w' = D!Key(w, g, s)
                              \/ \E g \in Gaps(3), s \in Names : w' = D!Name(w, g, s)
                              \/ \E g \in FewGaps(3) : w' = D!Done(w, g)
         \/ w.ph = "aname" /\ \E g \in Gaps(3), s \in Names : w' = D!Name(w, g, s)
         \/ w.ph = "assign" /\ \E g \in FewGaps(3) : w' = D!Assign(w, g)
         \/ w.ph = "comma" /\ \/ \E g \in FewGaps(3) : w' = D!Comma(w, g, "items")
                              \/ \E g \in FewGaps(3) : w' = D!Done(w, g)
         \/ w.ph = "acomma" /\ \/ \E g \in FewGaps(3) : w' = D!Comma(w, g, "aclose")
                               \/ \E g \in FewGaps(3) : w' = D!Done(w, g)
         \/ w.ph \in {"aclose", "pclose"} /\ \E g \in FewGaps(3) : w' = D!Done(w, g)
Values == \/ w.ph = "operand" /\ \E g \in FewGaps(3) :
               \/ w' = D!Operand(w, g, "Number", <<49, 57>>)
               \/ Fam # "layout" /\ w' = D!Operand(w, g, "Ident", <<65, 45, 49>>)
               \/ Strs /\ \E c \in {34, 123} : w' = IF Parse THEN D!StrOpen(w, g, c) ELSE D!RawOpen(w, g, c)
          \/ w.ph = "op" /\ \/ w' = D!EndValue(w)
                            \/ \E g \in FewGaps(3) : w' = D!Hash(w, g)
RawText == /\ w.ph = "raw"
           /\ \/ w.stk[1].d = 0 /\ w' = D!RawClose(w)
              \/ Fam = "layout" /\ w.src[Len(w.src)] # 10 /\ w' = D!RawPut(w, <<37, 10>>)
              \/ Full /\ \E s \in Few(1, {<<92>>, <<37, 97>>, <<10>>, <<36>>, <<233, 64>>}) : w' = D!RawPut(w, s)
              \/ Full /\ (w.stk[1].dl = 123 \/ w.stk[1].d > 0) /\ w' = D!RawPut(w, <<34>>)
              \/ Full /\ w.stk[1].d < 2 /\ w' = D!RawBrace(w, TRUE)
              \/ Full /\ w.stk[1].d > 0 /\ w' = D!RawBrace(w, FALSE)
Text == /\ w.ph = "text"
        /\ \/ w' = D!StrClose(w)
           \/ Full /\ Len(w.stk) < 4 /\ w' = D!Nest(w)
           \/ Full /\ \E x \in Few(2, D!Pieces(w)) : w' = D!Piece(w, x[1], x[2], x[3])
           \/ Fam = "layout" /\ w.lastp = "open" /\ w' = D!Piece(w, "space", <<10, 32>>, Leaf("Space", Len(w.src), <<>>))

Next == /\ n < Budget
        /\ TopLevel \/ OpenIt \/ Items \/ Values \/ Text \/ RawText
        /\ w'.gaps <= Gap
        /\ n' = n + (IF Len(w'.src) > Len(w.src) THEN 1 ELSE 0)
Spec == Init /\ [][Next]_vars

Closed == {"top", "end"}
Understood(m) ==
    IF w.ph \in Closed
    THEN /\ m.st = "ok" /\ ~m.odd
         /\ m.decls = w.decls
         /\ m.coms = w.coms
         /\ w.decls # <<>> => m.fdoc = w.fdoc
    ELSE /\ m.st = "rej"
         /\ m.decls = w.decls

(* what is cut off is looked at rarely in simulation                         *)
Looked == \/ Fam # "all"
          \/ w.ph \in Closed /\ (n > 25 \/ RandomElement(1..3) = 1)
          \/ RandomElement(1..30) = 1
Shown == IOEnv.SHOW = "1" => PrintT("DOC " \o ToString(w.src) \o " " \o w.ph)
Inv == Looked => Understood(ParseFile(w.src, Parse)) /\ Shown
==============================================================================
