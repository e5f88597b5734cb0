--------------------------------- MODULE Doc ---------------------------------
(* The writer: builds source texts piece by piece together with what they     *)
(* mean (declarations with positions, comments and what they document).  It   *)
(* is the grammar read from the other side, and knows nothing of tokens,      *)
(* look-ahead or the parser's stack; MCDoc checks that the parser machine     *)
(* finds in the text what the writer meant.                                   *)
(*   src ln     text so far and the line its end is on                        *)
(*   ph         what may come next                                            *)
(*   decls      finished declarations, d: the one being written               *)
(*   ops hash   operands of the value being written, offsets of its '#'       *)
(*   stk        strings being written (innermost last), lastp: last piece     *)
(*   coms       comment groups; kind of the last group if only comments and   *)
(*              white space follow the last token ("none", "own": on the line *)
(*              of that token, "run"), cl its line; tl the line of that token *)
(*   fdoc       what documents the first declaration, gaps: how much layout   *)
EXTENDS Chars, TLC

Nd(k, p, e, n, s, c) == <<k, p, e, n, s, c>>

NoDecl == [k |-> "", pos |-> 0, ty |-> <<>>, doc |-> <<>>, op |-> 0, key |-> <<>>, xs |-> <<>>, tags |-> <<>>, val |-> <<>>, pend |-> <<>>]
Blank == [src |-> <<>>, ln |-> 1, ph |-> "top", decls |-> <<>>, d |-> NoDecl, ops |-> <<>>, hash |-> <<>>,
          stk |-> <<>>, lastp |-> "", coms |-> <<>>, kind |-> "none", cl |-> 0, tl |-> 0, fdoc |-> <<>>,
          bib |-> FALSE, gaps |-> 0]

Here(w) == Len(w.src)
Put(w, s) == [w EXCEPT !.src = @ \o s, !.ln = @ + Newlines(s, 0, Len(s))]

(* ---- layout: white space and comments --------------------------------------*)
Comment(w, text) ==
    LET c == <<Here(w), text>>
        k == Len(w.coms)
        own == w.kind = "none" /\ w.tl = w.ln
        join == w.kind = "run" /\ w.ln <= w.cl + 1
    IN [Put(w, text) EXCEPT !.coms = IF join THEN [@ EXCEPT ![k] = Append(@, c)] ELSE Append(@, <<c>>),
                            !.kind = IF own THEN "own" ELSE "run",
                            !.cl = w.ln]
Layout(w0, g) ==
    LET w == [w0 EXCEPT !.gaps = @ + 1] IN
    CASE g = "none" -> w0
      [] g = "sp" -> Put(w, <<32>>)
      [] g = "nl" -> Put(w, <<10>>)
      [] g = "com" -> Put(Comment(w, <<37, 99>>), <<10>>)
      [] g = "nlcom" -> Put(Comment(Put(w, <<10>>), <<37, 64, 123, 13>>), <<10>>)
      [] g = "comnl" -> Put(Comment(w, <<37>>), <<10, 32, 10>>)
      [] g = "gap" -> Put(Comment(Put(Comment(w, <<37, 97>>), <<10, 10>>), <<37, 98>>), <<10>>)
      [] g = "coms" -> Put(Comment(Put(Comment(Put(w, <<10>>), <<37, 34>>), <<10, 9>>), <<37, 44>>), <<10>>)
DocHere(w) == IF w.kind = "run" /\ w.cl + 1 = w.ln
              THEN [i \in 1..Len(w.coms[Len(w.coms)]) |-> w.coms[Len(w.coms)][i][1]] ELSE <<>>

(* one token behind some layout *)
Tok(w, s) == [Put(w, s) EXCEPT !.tl = w.ln, !.kind = "none", !.bib = FALSE]

(* ---- declarations -----------------------------------------------------------*)
Start(w0, g, s, k, ph) ==
    LET w == Layout(w0, g) IN
    [Tok(w, s) EXCEPT !.ph = ph,
                      !.d = [NoDecl EXCEPT !.k = k, !.pos = Here(w), !.doc = DocHere(w),
                                           !.ty = IF k = "Bib" THEN ToLower(Tail(s)) ELSE <<>>],
                      !.fdoc = IF w.decls = <<>> THEN DocHere(w) ELSE @]
Open(w0, g, c, ph) ==
    LET w == Layout(w0, g) IN [Tok(w, <<c>>) EXCEPT !.d.op = c, !.ph = ph]
Closer(op) == IF op = 123 THEN 125 ELSE 41

Key(w0, g, s) ==
    LET w == Layout(w0, g)
        k == <<Here(w), s>>
    IN [Tok(w, s) EXCEPT !.ph = "comma",
                         !.d.key = IF @ = <<>> THEN <<k>> ELSE @,
                         !.d.xs = IF w.d.key = <<>> THEN @ ELSE Append(@, k)]
Name(w0, g, s) ==
    LET w == Layout(w0, g) IN
    [Tok(w, s) EXCEPT !.ph = "assign", !.d.pend = <<Here(w), s, DocHere(w)>>]
Assign(w0, g) == [Tok(Layout(w0, g), <<61>>) EXCEPT !.ph = "operand"]
Comma(w0, g, ph) == [Tok(Layout(w0, g), <<44>>) EXCEPT !.ph = ph]

Done(w0, g) ==
    LET w == Layout(w0, g)
        d == w.d
    IN [Tok(w, <<Closer(d.op)>>) EXCEPT !.ph = "top", !.d = NoDecl, !.bib = (d.k = "Bib"),
          !.decls = Append(@, <<d.k, d.pos, Here(w), d.ty, d.doc, d.key, d.xs, d.tags, d.val>>)]

(* ---- values -------------------------------------------------------------------*)
RECURSIVE Sum(_, _)              \* a # (b # (c ...))
Sum(ops, hash) == IF Len(ops) = 1 THEN ops[1]
                  ELSE Nd("Concat", ops[1][2], hash[1], 0, <<>>, <<ops[1], Sum(Tail(ops), Tail(hash))>>)
Operand(w0, g, k, s) ==
    LET w == Layout(w0, g) IN
    [Tok(w, s) EXCEPT !.ph = "op", !.ops = Append(@, Nd(k, Here(w), -1, 0, s, <<>>))]
Hash(w0, g) == LET w == Layout(w0, g) IN [Tok(w, <<35>>) EXCEPT !.ph = "operand", !.hash = Append(@, Here(w))]
EndValue(w) ==
    LET v == Sum(w.ops, w.hash)
        w1 == [w EXCEPT !.ops = <<>>, !.hash = <<>>]
    IN IF w.d.k = "Preamble" THEN [w1 EXCEPT !.ph = "pclose", !.d.val = <<v>>]
       ELSE [w1 EXCEPT !.ph = IF w.d.k = "Bib" THEN "comma" ELSE "acomma",
                       !.d.tags = Append(@, <<w.d.pend[1], ToLower(w.d.pend[2]), w.d.pend[2], w.d.pend[3], v>>)]

(* ---- strings whose content is not interpreted ---------------------------------*)
RawOpen(w0, g, c) == LET w == Layout(w0, g) IN
    [Tok(w, <<c>>) EXCEPT !.ph = "raw", !.stk = <<[dl |-> c, pos |-> Here(w), at |-> Here(w) + 1, d |-> 0]>>]
RawPut(w, s) == Put(w, s)
RawBrace(w, up) == [Put(w, <<IF up THEN 123 ELSE 125>>) EXCEPT !.stk[1].d = IF up THEN @ + 1 ELSE @ - 1]
RawClose(w) == LET f == w.stk[1] IN
    [Put(w, <<IF f.dl = 123 THEN 125 ELSE 34>>) EXCEPT !.ph = "op", !.stk = <<>>,
        !.ops = Append(@, Nd("Unparsed", f.pos, -1, f.dl, Span(w.src, f.at, Here(w)), <<>>))]

(* ---- strings whose content is interpreted ---------------------------------------*)
Frame(w, c, d) == [dl |-> c, pos |-> Here(w), d |-> d, vals |-> <<>>]
StrOpen(w0, g, c) == LET w == Layout(w0, g) IN
    [Tok(w, <<c>>) EXCEPT !.ph = "text", !.stk = <<Frame(w, c, 0)>>, !.lastp = "open"]
Nest(w) == [Put(w, <<123>>) EXCEPT !.stk = Append(@, Frame(w, 123, Len(w.stk))), !.lastp = "open"]
Value(w, v) == [w EXCEPT !.stk[Len(w.stk)].vals = Append(@, v)]
Piece(w, p, s, v) == [Value(Put(w, s), v) EXCEPT !.lastp = p]
(* every kind of piece: its text and its node *)
Pieces(w) ==
    LET o == Here(w)
        leaf(k, s) == Nd(k, o, -1, 0, s, <<>>)
        q == w.stk[1].dl = 34 /\ Len(w.stk) = 1          \* a double quote would end it
        word(t) == {<<"text", t, leaf("Text", t)>>}
        words == IF w.lastp = "text" THEN {} ELSE
                 word(<<49, 64, 37, 35>>) \cup word(<<40, 233, 61>>)
                 \cup (IF w.lastp = "macro" THEN {} ELSE word(<<97>>))     \* it would be part of the name
                 \cup (IF q THEN {} ELSE word(<<34, 41>>))
    IN words
       \cup (IF w.lastp = "space" THEN {} ELSE
             {<<"space", <<32>>, leaf("Space", <<>>)>>, <<"space", <<10, 9, 32>>, leaf("Space", <<>>)>>})
       \cup {<<"comma", <<44>>, leaf("Comma", <<>>)>>,
             <<"nbsp", <<126>>, leaf("NBSP", <<>>)>>,
             <<"math", <<36, 120, 123, 36>>, leaf("Math", <<120, 123>>)>>,
             <<"math", <<36, 92, 36, 34, 36>>, leaf("Math", <<92, 36, 34>>)>>,
             <<"esc", <<92, 38>>, leaf("Escaped", <<38>>)>>,
             <<"esc", <<92, 125>>, leaf("Escaped", <<125>>)>>,
             <<"esc", <<92, 92>>, leaf("Escaped", <<92>>)>>,
             <<"accent", <<92, 39, 101>>, Nd("Accent", o, -1, 39, <<101>>, <<>>)>>,
             <<"accent", <<92, 34, 123, 85, 125>>, Nd("Accent", o, -1, 34, <<85>>, <<>>)>>,
             <<"accent", <<92, 99, 32, 32, 99>>, Nd("Accent", o, -1, 99, <<99>>, <<>>)>>,
             <<"macro", <<92, 99, 105, 116, 101>>, Nd("Macro", o, -1, 0, <<99, 105, 116, 101>>, <<>>)>>,
             <<"macro", <<92, 84, 101, 88>>, Nd("Macro", o, -1, 0, <<84, 101, 88>>, <<>>)>>,
             <<"sym", <<92, 59>>, Nd("Macro", o, -1, 0, <<92, 59>>, <<>>)>>,
             <<"unit", <<92, 117, 114, 108, 123, 98, 126, 36, 49, 36, 125>>,
               Nd("Macro", o, o + 10, 0, <<117, 114, 108>>, <<Nd("Text", o + 5, -1, 0, <<98, 126, 36, 49, 36>>, <<>>)>>)>>}
StrClose(w) ==
    LET k == Len(w.stk)
        f == w.stk[k]
        v == Nd("Parsed", f.pos, Here(w), f.d, <<f.dl>>, f.vals)
        w1 == Put(w, <<IF f.dl = 34 THEN 34 ELSE 125>>)
    IN IF k = 1 THEN [w1 EXCEPT !.stk = <<>>, !.ph = "op", !.ops = Append(@, v), !.lastp = "", !.tl = w.ln]
       ELSE [w1 EXCEPT !.stk = [SubSeq(@, 1, k - 1) EXCEPT ![k - 1].vals = Append(@, v)], !.lastp = "nest"]
==============================================================================
