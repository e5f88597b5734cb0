------------------------------ MODULE Authors -------------------------------
(* Author lists.  State: the next piece of the string, the pieces of the      *)
(* author being collected, the finished authors.  One step takes one piece;   *)
(* a separator, or the end, finishes an author.                               *)
EXTENDS Tree, Accents, Chars

AndWord == <<97, 110, 100>>
Others == <<111, 116, 104, 101, 114, 115>>

IsBlank(n) == K(n) \in {"Space", "NBSP"}
IsBreak(n) == IsBlank(n) \/ K(n) = "Comma"

(* the separator is the word "and", not a part of a word *)
IsSep(vs, i) == /\ K(vs[i]) = "Text" /\ Str(vs[i]) = AndWord
                /\ i = 1 \/ IsBreak(vs[i - 1])
                /\ i = Len(vs) \/ IsBreak(vs[i + 1])

(* ---- words ----------------------------------------------------------------*)
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ IsBlank(Head(s)) THEN TrimL(Tail(s)) ELSE s

(* the words of a name: maximal runs of pieces without white space *)
RECURSIVE Words(_)
Words(s) ==
    LET t == TrimL(s) IN
    IF t = <<>> THEN <<>>
    ELSE LET ends == {i \in 1..Len(t) : IsBlank(t[i])}
             e == IF ends = {} THEN Len(t) ELSE (CHOOSE i \in ends : \A j \in ends : i <= j) - 1
         IN <<SubSeq(t, 1, e)>> \o Words(SubSeq(t, e + 1, Len(t)))

LowerStart(s) == s = <<>> \/ ~IsUpper(s[1])
(* A word in braces has no case, unless it begins with an accent.            *)
LowerWord(w) ==
    CASE K(w[1]) \in {"Text", "Accent"} -> LowerStart(Str(w[1]))
      [] K(w[1]) = "Parsed" -> LET ks == Kids(w[1]) IN
                               ks # <<>> /\ K(ks[1]) = "Accent" /\ LowerStart(Str(ks[1]))
      [] OTHER -> FALSE

(* ---- text of pieces --------------------------------------------------------*)
Ok(s) == <<TRUE, s>>
Bad == <<FALSE, <<>>>>
Join2(a, b) == IF a[1] /\ b[1] THEN Ok(a[2] \o b[2]) ELSE Bad
RECURSIVE Flat(_)
RECURSIVE FlatAll(_)
FlatAll(ns) == IF ns = <<>> THEN Ok(<<>>) ELSE Join2(Flat(Head(ns)), FlatAll(Tail(ns)))
Flat(n) ==
    CASE K(n) \in {"Parsed", "Macro"} -> FlatAll(Kids(n))
      [] K(n) = "Text" -> Ok(Str(n))
      [] K(n) = "Comma" -> Ok(<<44>>)
      [] K(n) = "Escaped" -> Ok(<<92>> \o Str(n))
      [] K(n) = "Hyphen" -> Ok(<<45>>)
      [] K(n) \in {"NBSP", "Space"} -> Ok(<<32>>)
      [] K(n) = "Math" -> Ok(<<36>> \o Str(n) \o <<36>>)
      [] K(n) = "Accent" -> IF CanAccent(Num(n), Str(n)) THEN Ok(<<AccentOf(Num(n), Str(n))>>) ELSE Bad
      [] OTHER -> Bad

RECURSIVE StripSp(_)
StripSp(s) == IF s # <<>> /\ s[1] \in {32, 9, 10, 13} THEN StripSp(Tail(s))
              ELSE IF s # <<>> /\ s[Len(s)] \in {32, 9, 10, 13} THEN StripSp(SubSeq(s, 1, Len(s) - 1)) ELSE s

(* the words i..j, with the white space between them *)
RECURSIVE JoinWords(_)
JoinWords(ws) == IF ws = <<>> THEN Ok(<<>>)
                 ELSE IF Len(ws) = 1 THEN FlatAll(ws[1])
                 ELSE Join2(FlatAll(ws[1]), Join2(Ok(<<32>>), JoinWords(Tail(ws))))
(* Text of a part: words joined by one space.  Runs of several blanks (as in  *)
(* "a ~b") are compared up to the number of blanks.                           *)
PartText(ws) == LET t == JoinWords(ws) IN IF t[1] THEN Ok(StripSp(t[2])) ELSE Bad

RECURSIVE Squeeze(_)
Squeeze(s) == IF \A i \in 1..(Len(s) - 1) : s[i] # 32 \/ s[i + 1] # 32 THEN s
              ELSE IF s[1] = 32 /\ s[2] = 32 THEN Squeeze(Tail(s))
              ELSE <<s[1]>> \o Squeeze(Tail(s))

(* ---- parts of a name -------------------------------------------------------*)
(* <<first, prefix, last, suffix>>, each a sequence of words *)
MinOf(S) == CHOOSE i \in S : \A j \in S : i <= j

(* how many leading words of ws, never the last one, are lower case *)
PrefixLen(ws) ==
    LET up == {i \in 1..Len(ws) : i = Len(ws) \/ ~LowerWord(ws[i])} IN
    IF ws = <<>> THEN 0 ELSE MinOf(up) - 1

NoComma(ws) ==
    IF ws = <<>> THEN <<<<>>, <<>>, <<>>, <<>>>>
    ELSE LET stop == {i \in 1..Len(ws) : i = Len(ws) \/ (i > 1 /\ LowerWord(ws[i]))}
             f == MinOf(stop) - 1
             rest == SubSeq(ws, f + 1, Len(ws))
             p == PrefixLen(rest)
         IN <<SubSeq(ws, 1, f), SubSeq(rest, 1, p), SubSeq(rest, p + 1, Len(rest)), <<>>>>

CommaAt(ps) == {i \in 1..Len(ps) : K(ps[i]) = "Comma"}

WithCommas(ps) ==
    LET cs == CommaAt(ps)
        c1 == MinOf(cs)
        lastPart == Words(SubSeq(ps, 1, c1 - 1))
        p == PrefixLen(lastPart)
        c2 == IF Cardinality(cs) = 1 THEN c1 ELSE MinOf(cs \ {c1})
        suffix == IF c2 = c1 THEN <<>> ELSE Words(SubSeq(ps, c1 + 1, c2 - 1))
        first == Words(SubSeq(ps, c2 + 1, Len(ps)))
    IN <<first, SubSeq(lastPart, 1, p), SubSeq(lastPart, p + 1, Len(lastPart)), suffix>>

Parts(ps) == IF CommaAt(ps) = {} THEN NoComma(Words(ps)) ELSE WithCommas(ps)

(* A name with more than two commas is not part of the rules.                 *)
TooManyCommas(ps) == Cardinality(CommaAt(ps)) > 2

Name(ps) ==
    LET q == Parts(ps)
        t == [i \in 1..4 |-> PartText(q[i])]
    IN IF \E i \in 1..4 : ~t[i][1] THEN Bad ELSE Ok([i \in 1..4 |-> t[i][2]])

Empty(nm) == \A i \in 1..4 : nm[i] = <<>>
IsOthers(nm) == nm[1] = <<>> /\ nm[2] = <<>> /\ nm[3] = Others /\ nm[4] = <<>>

(* ---- the machine -----------------------------------------------------------*)
AInit == [i |-> 1, cur |-> <<>>, done |-> <<>>, st |-> "run", odd |-> FALSE]

FinishAuthor(a) ==
    LET nm == Name(a.cur) IN
    IF ~nm[1] \/ Empty(nm[2]) THEN [a EXCEPT !.st = "err", !.odd = @ \/ TooManyCommas(a.cur)]
    ELSE [a EXCEPT !.done = Append(@, nm[2]), !.cur = <<>>, !.odd = @ \/ TooManyCommas(a.cur)]

AStep(a, vs) ==
    IF a.i > Len(vs)
    THEN LET b == FinishAuthor(a) IN IF b.st = "run" THEN [b EXCEPT !.st = "end"] ELSE b
    ELSE IF IsSep(vs, a.i)
    THEN [FinishAuthor(a) EXCEPT !.i = @ + 1]
    ELSE [a EXCEPT !.cur = Append(@, vs[a.i]), !.i = @ + 1]

RECURSIVE ARun(_, _)
ARun(a, vs) == IF a.st = "run" THEN ARun(AStep(a, vs), vs) ELSE a
AuthorsOf(n) == ARun(AInit, Kids(n))

(* ---- properties of the specification --------------------------------------- *)
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))

(* Without commas every word is in exactly one part, in order, and the last   *)
(* word is family name.                                                       *)
PartsInv(ps) ==
    LET q == Parts(ps)
        ws == Words(ps)
    IN /\ CommaAt(ps) = {} =>
            /\ q[1] \o q[2] \o q[3] = ws
            /\ q[4] = <<>>
            /\ ws # <<>> => q[3] # <<>>
            /\ \A i \in 1..Len(q[2]) : LowerWord(q[2][i])
            /\ \A i \in 2..Len(q[1]) : ~LowerWord(q[1][i])
       /\ CommaAt(ps) # {} /\ ~TooManyCommas(ps) =>
            Len(Words(SelectSeq(ps, LAMBDA n : K(n) # "Comma"))) <= Len(Flatten(q))
=============================================================================
