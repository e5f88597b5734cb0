------------------------------- MODULE Parser -------------------------------
(* The parser as a push-down machine over the token stream.  A machine state *)
(* is a record:                                                              *)
(*   st    "run", "ok" (document accepted) or "rej" (malformed)              *)
(*   ph    "scan": the next token is wanted; "parse": tk is the look-ahead   *)
(*   sc tk scanner state and look-ahead token                                *)
(*   pl    line of the token before, ck ce: comment group under construction *)
(*         ("none", "line", "lead") and the line its last comment is on      *)
(*   lead  the comment group that documents what tk starts (<<>>: none)      *)
(*   coms  comment groups so far; each is a sequence of <<offset, text>>     *)
(*   stk   stack of constructs being parsed, innermost last                  *)
(*   decls completed declarations, endl the offset behind the last of them   *)
(*   odd   the document uses a form whose acceptance is left open            *)
(*   cov   history: which control transitions were taken                     *)
(* After the first syntax error the machine stops; what has been completed   *)
(* by then is what every implementation must deliver.                        *)
(*                                                                           *)
(* Tree nodes are tuples <<kind, pos, end, num, str, kids>>:                 *)
(*   Ident Number Text Escaped Math   str = characters                       *)
(*   Unparsed    num = delimiter, str = verbatim text                        *)
(*   Parsed      pos/end = delimiters, num = depth, str = <<delimiter>>      *)
(*   Accent      num = accent, str = <<letter>>                              *)
(*   Macro       str = name, end = closing brace or -1, kids = arguments     *)
(*   Concat      end = position of '#', kids = <<left, right>>               *)
(*   Space Comma NBSP                                                        *)
(* Declarations are <<kind, pos, closer, type, doc, key, xkeys, tags, val>>, *)
(* key being a sequence of at most one <<pos, name>>, a tag                  *)
(* <<pos, name, raw, doc, value>> and val a sequence of at most one node.    *)
EXTENDS Scanner, TLC

Node(k, p, e, n, s, c) == <<k, p, e, n, s, c>>
Leaf(k, p, s) == Node(k, p, -1, 0, s, <<>>)

(* ---- comments and look-ahead -------------------------------------------- *)

(* Fetch one token.  A comment on the line of the token before it is a group *)
(* of its own; other comments on adjacent lines form a group; a group that   *)
(* ends on the line before the next token is that token's lead comment.      *)
Fetch(m, src, ps) ==
    LET r == Scan(src, m.sc, ps)
        tk == r.tok
        lastGroup == Last(m.coms)
    IN IF tk.t = "TexComment"
       THEN LET c == <<tk.p, tk.l>>
                line == m.ck = "none" /\ tk.ln = m.pl
                join == m.ck = "lead" /\ tk.ln <= m.ce + 1
            IN [m EXCEPT !.sc = r.s,
                         !.ck = IF line THEN "line" ELSE "lead",
                         !.ce = tk.ln,
                         !.coms = IF join THEN Append(Front(@), Append(lastGroup, c))
                                  ELSE Append(@, <<c>>)]
       ELSE [m EXCEPT !.sc = r.s, !.tk = tk, !.ph = "parse",
                      !.lead = IF m.ck = "lead" /\ m.ce + 1 = tk.ln
                               THEN [i \in 1..Len(lastGroup) |-> lastGroup[i][1]]
                               ELSE <<>>,
                      !.fdoc = IF m.first
                               THEN IF m.ck = "lead" /\ m.ce + 1 = tk.ln
                                    THEN [i \in 1..Len(lastGroup) |-> lastGroup[i][1]]
                                    ELSE <<>>
                               ELSE @,
                      !.first = FALSE]

Consume(m) == [m EXCEPT !.ph = "scan", !.pl = m.tk.ln, !.ck = "none",
                        !.odd = @ \/ m.tk.odd]

Top(m) == Last(m.stk)
SetTop(m, f) == [m EXCEPT !.stk[Len(m.stk)] = f]
Push(m, f) == [m EXCEPT !.stk = Append(@, f)]
Pop(m) == [m EXCEPT !.stk = Front(@)]
Reject(m) == [m EXCEPT !.st = "rej"]
RejectOdd(m) == [m EXCEPT !.st = "rej", !.odd = TRUE]   \* acceptance left open
Note(m) == [m EXCEPT !.odd = TRUE]

(* ---- urls ----------------------------------------------------------------*)

PlainUrl(vals) == \A i \in 1..Len(vals) : vals[i][1] \in {"Text", "NBSP", "Comma"}
RECURSIVE JoinUrl(_)
JoinUrl(vals) ==
    IF vals = <<>> THEN <<>>
    ELSE LET v == Head(vals) IN
         (CASE v[1] = "Text" -> v[5] [] v[1] = "NBSP" -> <<126>> [] OTHER -> <<44>>)
         \o JoinUrl(Tail(vals))

IsUrlName(n) == n = <<117, 114, 108>>
IsUrlMacro(n) == IsUrlName(n) \/ n = <<104, 114, 101, 102>>
HasHttp(s) == Len(s) >= 4 /\ SubSeq(s, 1, 4) = <<104, 116, 116, 112>>

(* A braced plain http url in a url field is one text. *)
FixUrl(v) ==
    IF v[1] = "Parsed" /\ v[6] # <<>> /\ v[6][1][1] = "Text" /\ HasHttp(v[6][1][5])
       /\ PlainUrl(v[6])
    THEN [v EXCEPT ![6] = <<Leaf("Text", v[6][1][2], JoinUrl(v[6]))>>]
    ELSE v

(* ---- constructs ----------------------------------------------------------*)

BibFrame(m) == [f |-> "bib", st |-> "open", pos |-> m.tk.p, ty |-> ToLower(Tail(m.tk.l)),
                doc |-> m.lead, op |-> "", key |-> <<>>, xs |-> <<>>, tags |-> <<>>,
                pend |-> <<>>, close |-> -1]
AbbFrame(m) == [f |-> "abb", st |-> "open", pos |-> m.tk.p, doc |-> m.lead, op |-> "",
                tags |-> <<>>, pend |-> <<>>]
PreFrame(m) == [f |-> "pre", st |-> "open", pos |-> m.tk.p, doc |-> m.lead, op |-> "",
                val |-> <<>>]
ExprFrame(url) == [f |-> "expr", st |-> "operand", ops |-> <<>>, hash |-> <<>>, url |-> url]
TextFrame(m, dl, depth) == [f |-> "text", st |-> IF dl = 34 THEN "quote" ELSE "brace",
                            dl |-> dl, d |-> depth, pos |-> m.tk.p, vals |-> <<>>]
UrlFrame(m) == [f |-> "url", st |-> "open", name |-> m.tk.l, pos |-> m.tk.p,
                apos |-> -1, buf |-> <<>>, n |-> 0]

Closes(op, t) == \/ op = "LBrace" /\ t = "RBrace"
                 \/ op = "LParen" /\ t = "RParen"

(* A finished value goes to the construct below the one on top. *)
Return(m, v) ==
    LET m1 == Pop(m)
        g == Top(m1)
    IN CASE g.f = "text" -> SetTop(m1, [g EXCEPT !.vals = Append(@, v)])
         [] g.f = "expr" ->
              LET w == IF g.url /\ g.ops = <<>> /\ v[1] = "Parsed" /\ v[5] = <<34>> /\ PlainUrl(v[6])
                       THEN Leaf("Text", v[2], JoinUrl(v[6])) ELSE v
              IN SetTop(m1, [g EXCEPT !.ops = Append(@, w), !.st = "op"])
         [] g.f = "bib" ->
              LET p == g.pend
                  nm == ToLower(p[2])
                  w == IF IsUrlName(nm) THEN FixUrl(v) ELSE v
              IN SetTop(m1, [g EXCEPT !.tags = Append(@, <<p[1], nm, p[2], p[3], w>>),
                                      !.st = "comma"])
         [] g.f = "abb" ->
              LET p == g.pend IN
              SetTop(m1, [g EXCEPT !.tags = <<<<p[1], ToLower(p[2]), p[2], p[3], v>>>>,
                                   !.st = "comma"])
         [] g.f = "pre" -> SetTop(m1, [g EXCEPT !.val = <<v>>, !.st = "close"])
         [] g.f = "top" -> [SetTop(m1, [g EXCEPT !.st = "done"]) EXCEPT !.val = <<v>>]

RECURSIVE Fold(_, _)             \* operands nest to the right
Fold(ops, hash) ==
    IF Len(ops) = 1 THEN ops[1]
    ELSE Node("Concat", ops[1][2], hash[1], 0, <<>>, <<ops[1], Fold(Tail(ops), Tail(hash))>>)

Complete(m, d, e) == [Pop(m) EXCEPT !.decls = Append(@, d), !.endl = e]

FileStep(m) ==
    CASE m.tk.t = "EOF" -> [m EXCEPT !.st = "ok"]
      [] m.tk.t = "BibEntry" -> Push(Consume(m), BibFrame(m))
      [] m.tk.t = "Abbrev" -> Push(Consume(m), AbbFrame(m))
      [] m.tk.t = "Preamble" -> Push(Consume(m), PreFrame(m))
      [] m.tk.t = "Comment" -> RejectOdd(m)
      [] OTHER -> Reject(m)

OpenStep(m, next) ==
    IF m.tk.t \in {"LBrace", "LParen"}
    THEN LET m1 == Consume(m) IN SetTop(m1, [Top(m1) EXCEPT !.op = m.tk.t, !.st = next])
    ELSE Reject(m)

LegalTagName(n) == n[1] \in AsciiLetter

BibStep(m) ==
    LET f == Top(m)
        t == m.tk.t
    IN CASE f.st = "open" -> OpenStep(m, "items")
         [] f.st = "items" /\ t \in {"Ident", "Number"} ->
              SetTop(Consume(m), [f EXCEPT !.pend = <<m.tk.p, m.tk.l, m.lead>>, !.st = "after"])
         [] f.st = "items" /\ Closes(f.op, t) ->
              SetTop(Consume(m), [f EXCEPT !.close = m.tk.p, !.st = "trail"])
         [] f.st = "items" /\ t = "Comma" -> RejectOdd(m)
         [] f.st = "after" /\ t = "Assign" ->
              IF LegalTagName(f.pend[2])
              THEN Push(Consume(m), ExprFrame(IsUrlName(ToLower(f.pend[2]))))
              ELSE Reject(m)
         [] f.st = "after" /\ t # "Assign" ->        \* it was a cite key
              LET k == <<f.pend[1], f.pend[2]>> IN
              SetTop(m, IF f.key = <<>> THEN [f EXCEPT !.key = <<k>>, !.st = "comma"]
                        ELSE [f EXCEPT !.xs = Append(@, k), !.st = "comma"])
         [] f.st = "comma" /\ t = "Comma" -> SetTop(Consume(m), [f EXCEPT !.st = "items"])
         [] f.st = "comma" /\ t # "Comma" ->
              SetTop(IF t \in {"Ident", "Number"} THEN Note(m) ELSE m, [f EXCEPT !.st = "items"])
         [] f.st = "trail" ->
              LET d == <<"Bib", f.pos, f.close, f.ty, f.doc, f.key, f.xs, f.tags, <<>>>> IN
              Complete(IF t = "Comma" THEN Consume(m) ELSE m, d, f.close + 1)
         [] OTHER -> Reject(m)

AbbStep(m) ==
    LET f == Top(m)
        t == m.tk.t
    IN CASE f.st = "open" -> OpenStep(m, "name")
         [] f.st = "name" /\ t \in {"Ident", "Number"} ->
              SetTop(Consume(IF LegalTagName(m.tk.l) THEN m ELSE Note(m)),
                     [f EXCEPT !.pend = <<m.tk.p, m.tk.l, m.lead>>, !.st = "assign"])
         [] f.st = "assign" /\ t = "Assign" -> Push(Consume(m), ExprFrame(FALSE))
         [] f.st = "comma" /\ t = "Comma" -> SetTop(Consume(m), [f EXCEPT !.st = "close"])
         [] (f.st = "comma" \/ f.st = "close") /\ Closes(f.op, t) ->
              Complete(Consume(m),
                       <<"Abbrev", f.pos, m.tk.p, <<>>, f.doc, <<>>, <<>>, f.tags, <<>>>>, m.tk.p + 1)
         [] OTHER -> Reject(m)

PreStep(m) ==
    LET f == Top(m)
        t == m.tk.t
    IN CASE f.st = "open" ->
              LET m1 == OpenStep(m, "close") IN
              IF m1.st = "rej" THEN m1 ELSE Push(m1, ExprFrame(FALSE))
         [] f.st = "close" /\ Closes(f.op, t) ->
              Complete(Consume(m),
                       <<"Preamble", f.pos, m.tk.p, <<>>, f.doc, <<>>, <<>>, <<>>, f.val>>, m.tk.p + 1)
         [] f.st = "close" /\ t = "Comma" -> RejectOdd(m)
         [] OTHER -> Reject(m)

ExprStep(m) ==
    LET f == Top(m)
        t == m.tk.t
        lit(v) == SetTop(Consume(m), [f EXCEPT !.ops = Append(@, v), !.st = "op"])
    IN CASE f.st = "operand" /\ t = "String" -> lit(Node("Unparsed", m.tk.p, -1, 34, m.tk.l, <<>>))
         [] f.st = "operand" /\ t = "BraceString" -> lit(Node("Unparsed", m.tk.p, -1, 123, m.tk.l, <<>>))
         [] f.st = "operand" /\ t = "Number" -> lit(Leaf("Number", m.tk.p, m.tk.l))
         [] f.st = "operand" /\ t = "Ident" -> lit(Leaf("Ident", m.tk.p, m.tk.l))
         [] f.st = "operand" /\ t = "DoubleQuote" -> Push(Consume(m), TextFrame(m, 34, 0))
         [] f.st = "operand" /\ t = "StringLBrace" -> Push(Consume(m), TextFrame(m, 123, 0))
         [] f.st = "op" /\ t = "Concat" ->
              SetTop(Consume(m), [f EXCEPT !.hash = Append(@, m.tk.p), !.st = "operand"])
         [] f.st = "op" /\ t # "Concat" -> Return(m, Fold(f.ops, f.hash))
         [] OTHER -> Reject(m)

TextStep(m) ==
    LET f == Top(m)
        t == m.tk.t
        p == m.tk.p
        add(v) == SetTop(Consume(m), [f EXCEPT !.vals = Append(@, v)])
        close == Return(Consume(m), Node("Parsed", f.pos, p, f.d, <<f.dl>>, f.vals))
    IN CASE t = "DoubleQuote" /\ f.dl = 34 -> close
         [] t = "StringRBrace" /\ f.dl = 123 -> close
         [] t = "StringLBrace" -> Push(Consume(m), TextFrame(m, 123, f.d + 1))
         [] t = "StringContents" -> add(Leaf("Text", p, m.tk.l))
         [] t = "StringSpace" -> add(Leaf("Space", p, <<>>))
         [] t = "StringComma" -> add(Leaf("Comma", p, <<>>))
         [] t = "StringNBSP" -> add(Leaf("NBSP", p, <<>>))
         [] t = "StringMath" -> add(Leaf("Math", p, m.tk.l))
         [] t = "StringBackslash" -> add(Leaf("Escaped", p, Tail(m.tk.l)))
         [] t = "StringAccent" ->
              LET l == m.tk.l IN
              add(Node("Accent", p, -1, l[2], IF Len(l) = 5 THEN <<l[4]>> ELSE <<l[3]>>, <<>>))
         [] t = "StringMacro" /\ IsUrlMacro(m.tk.l) -> Push(Consume(m), UrlFrame(m))
         [] t = "StringMacro" /\ ~IsUrlMacro(m.tk.l) -> add(Leaf("Macro", p, m.tk.l))
         [] OTHER -> Reject(m)

(* the argument of \url and \href is literal text *)
UrlStep(m) ==
    LET f == Top(m)
        t == m.tk.t
        p == m.tk.p
        add(s, k) == SetTop(Consume(m), [f EXCEPT !.buf = @ \o s, !.n = k, !.st = "arg",
                                                  !.apos = IF @ = -1 THEN p ELSE @])
        close == Return(Consume(m),
                        Node("Macro", f.pos, p, 0, f.name,
                             <<Leaf("Text", IF f.apos = -1 THEN p ELSE f.apos, f.buf)>>))
    IN CASE f.st = "open" ->
              IF t = "StringLBrace" THEN SetTop(Consume(m), [f EXCEPT !.st = "arg"])
              ELSE IF t = "Bad" THEN Reject(m) ELSE RejectOdd(m)
         [] f.st = "sp" /\ t = "StringRBrace" -> close
         [] f.st = "sp" /\ t # "StringRBrace" ->
              IF t = "Bad" THEN Reject(m) ELSE RejectOdd(m)
         [] f.st = "arg" /\ t = "StringRBrace" -> IF f.n = 0 THEN close ELSE add(<<125>>, f.n - 1)
         [] f.st = "arg" /\ t = "StringLBrace" -> add(<<123>>, f.n + 1)
         [] f.st = "arg" /\ t = "StringSpace" ->
              IF f.buf = <<>> \/ f.n > 0 THEN RejectOdd(m)
              ELSE SetTop(Consume(m), [f EXCEPT !.st = "sp"])
         [] f.st = "arg" /\ t = "StringMath" -> add(<<36>> \o m.tk.l \o <<36>>, f.n)
         [] f.st = "arg" /\ t = "StringMacro" ->
              add((IF m.tk.l[1] = 92 THEN <<>> ELSE <<92>>) \o m.tk.l, f.n)
         [] f.st = "arg" /\ t = "StringAccent" -> LET m1 == add(m.tk.l, f.n) IN Note(m1)
         [] f.st = "arg" /\ t \in {"StringContents", "StringComma", "StringNBSP", "StringBackslash"} ->
              add(m.tk.l, f.n)
         [] OTHER -> Reject(m)

(* A standalone expression: the text behind '='. *)
TopStep(m) ==
    LET f == Top(m) IN
    CASE f.st = "eq" /\ m.tk.t = "Assign" ->
           Push(SetTop(Consume(m), [f EXCEPT !.st = "val"]), ExprFrame(FALSE))
      [] f.st = "done" -> [m EXCEPT !.st = "ok", !.odd = @ \/ m.tk.t # "EOF"]
      [] OTHER -> Reject(m)

ParseStep(m) ==
    CASE Top(m).f = "file" -> FileStep(m)
      [] Top(m).f = "bib" -> BibStep(m)
      [] Top(m).f = "abb" -> AbbStep(m)
      [] Top(m).f = "pre" -> PreStep(m)
      [] Top(m).f = "expr" -> ExprStep(m)
      [] Top(m).f = "text" -> TextStep(m)
      [] Top(m).f = "url" -> UrlStep(m)
      [] Top(m).f = "top" -> TopStep(m)

Step(m, src, ps) ==
    IF m.ph = "scan" THEN Fetch(m, src, ps)
    ELSE [ParseStep(m) EXCEPT !.cov = @ \cup {<<Top(m).f, Top(m).st, m.tk.t>>}]

InitWith(src, frame) ==
    [st |-> "run", ph |-> "scan", sc |-> ScanInit(src),
     tk |-> [t |-> "none", p |-> -1, e |-> 0, l |-> <<>>, odd |-> FALSE, ln |-> 0],
     pl |-> 0, ck |-> "none", ce |-> -1, lead |-> <<>>, coms |-> <<>>,
     fdoc |-> <<>>, first |-> TRUE,
     stk |-> <<frame>>, decls |-> <<>>, endl |-> 0, odd |-> FALSE, val |-> <<>>, cov |-> {}]

InitFile(src) == InitWith(src, [f |-> "file", st |-> ""])
InitExpr(src) == InitWith(src, [f |-> "top", st |-> "eq"])    \* src begins with '='

RECURSIVE RunToEnd(_, _, _)
RunToEnd(m, src, ps) == IF m.st = "run" THEN RunToEnd(Step(m, src, ps), src, ps) ELSE m
ParseFile(src, ps) == RunToEnd(InitFile(src), src, ps)
ParseExpr(src) == RunToEnd(InitExpr(src), src, TRUE)

(* ---- properties of the machine itself ----------------------------------- *)

(* The parser and the scanner agree on whether the text is inside a string.  *)
RECURSIVE Depth(_)
Depth(stk) == IF stk = <<>> THEN 0
              ELSE (CASE Head(stk).f = "text" /\ Head(stk).dl = 123 -> 1
                      [] Head(stk).f = "url" /\ Head(stk).st \in {"arg", "sp"} -> 1 + Head(stk).n
                      [] OTHER -> 0) + Depth(Tail(stk))
InText(stk) == stk # <<>> /\ Last(stk).f \in {"text", "url"}

StackInv(m) ==
    (m.st = "run" /\ m.ph = "scan" /\ m.stk # <<>>) =>
        /\ (m.sc.eq # 0) = InText(m.stk)
        /\ (m.sc.eq = 34 => m.sc.d = Depth(m.stk))
        /\ (m.sc.eq = 125 => m.sc.d = Depth(m.stk) - 1)

OrderInv(m) ==        \* declarations are complete, in order and disjoint
    /\ \A i \in 1..Len(m.decls) :
          LET d == m.decls[i] IN
          /\ d[2] < d[3]
          /\ (i > 1 => m.decls[i - 1][3] < d[2])
    /\ m.decls # <<>> => m.endl = Last(m.decls)[3] + 1
    /\ m.endl <= m.sc.o
=============================================================================
