------------------------------ MODULE Scanner ------------------------------
(* The lexical machine.  Its state is                                       *)
(*   o     offset of the next character                                     *)
(*   prev  kind of the last token scanned outside strings (comments do not  *)
(*         count): decides whether '{' opens a block or a string            *)
(*   eq    0 outside strings, else the character that ends the string       *)
(*   d     brace depth inside the string                                    *)
(*   ln    line (1-based) of offset o                                       *)
(* and one step scans one token                                             *)
(*   t kind, p offset of its first character, e offset behind it, l its     *)
(*   literal, odd: a form the properties do not decide, ln its line.        *)
(* A token with a lexical error has kind "Bad": it is never consumed.       *)
EXTENDS Chars

ScanInit(src) == [o |-> IF At(src, 0) = BOM THEN 1 ELSE 0,
                  prev |-> "Illegal", eq |-> 0, d |-> 0, ln |-> 1]

(* Offset of the character that ends a string which does not interpret its   *)
(* content: braces nest, a quote ends a quoted string only at depth 0.       *)
RECURSIVE RawEnd(_, _, _, _)
RawEnd(src, from, d, q) ==
    LET o == SkipTo(src, from, {34, 123, 125})
        c == At(src, o)
    IN CASE c = EOFC -> -1
         [] c = 34 /\ q = 34 /\ d = 0 -> o
         [] c = 123 -> RawEnd(src, o + 1, d + 1, q)
         [] c = 125 /\ d > 0 -> RawEnd(src, o + 1, d - 1, q)
         [] c = 125 /\ d = 0 /\ q = 125 -> o
         [] OTHER -> RawEnd(src, o + 1, d, q)

(* A quoted raw string with a '}' that closes nothing. *)
RECURSIVE Unbalanced(_, _, _)
Unbalanced(s, from, d) ==
    LET o == SkipTo(s, from, {123, 125}) IN
    CASE At(s, o) = 123 -> Unbalanced(s, o + 1, d + 1)
      [] At(s, o) = 125 -> d = 0 \/ Unbalanced(s, o + 1, d - 1)
      [] OTHER -> FALSE

RECURSIVE MathEnd(_, _)          \* offset of the closing '$', or -1
MathEnd(src, from) ==
    LET o == SkipTo(src, from, {36, 10, 92})
        c == At(src, o)
    IN CASE c = 36 -> o
         [] c = EOFC \/ c = 10 -> -1
         [] OTHER -> MathEnd(src, o + 2)

(* the end of a run of plain text *)
TextEnd(src, o, q) == SkipTo(src, o, IF q THEN StringSpecial \cup {34} ELSE StringSpecial)

LineEnd(src, o) == SkipTo(src, o, {10})

(* lexeme: kind, end, literal, odd *)
Lx(t, e, l) == [t |-> t, e |-> e, l |-> l, odd |-> FALSE]

(* the lexeme starting with the backslash at o *)
Escape(src, o) ==
    LET c == At(src, o + 1)
        macro == LET k == SkipIn(src, o + 1, AsciiLetter) IN
                 IF k = o + 1 THEN Lx("Bad", o + 1, <<>>)
                 ELSE Lx("StringMacro", k, Span(src, o + 1, k))
        accent ==
          LET c2 == At(src, o + 2) IN
          CASE c2 = 123 ->
                 IF At(src, o + 3) \in AsciiLetter /\ At(src, o + 4) = 125
                 THEN Lx("StringAccent", o + 5, Span(src, o, o + 5))
                 ELSE Lx("Bad", o + 2, <<>>)
            [] c2 = 32 ->
                 LET k == SkipIn(src, o + 2, {32}) IN
                 IF At(src, k) \in AsciiLetter
                 THEN Lx("StringAccent", k + 1, <<92, c, At(src, k)>>)
                 ELSE Lx("Bad", o + 2, <<>>)
            [] c2 \in AsciiLetter -> Lx("StringAccent", o + 3, Span(src, o, o + 3))
            [] OTHER -> Lx("Bad", o + 2, <<>>)
    IN CASE c \in EscapeChar -> Lx("StringBackslash", o + 2, Span(src, o, o + 2))
         [] c = 99 /\ At(src, o + 2) \in AsciiLetter /\ At(src, o + 3) \in AsciiLetter -> macro
         [] c \in AccentChar -> accent
         [] c \in MacroSymbol -> Lx("StringMacro", o + 2, Span(src, o, o + 2))
         [] OTHER -> macro

(* the lexeme at o inside a string *)
InString(src, o, s) ==
    LET c == At(src, o)
        q == s.eq = 34 /\ s.d = 0         \* a quote is special here
    IN CASE c = EOFC -> Lx("Bad", o, <<>>)
         [] c = 36 -> LET k == MathEnd(src, o + 1) IN
                      IF k = -1 THEN Lx("Bad", o + 1, <<>>)
                      ELSE Lx("StringMath", k + 1, Span(src, o + 1, k))
         [] c = 34 /\ q -> Lx("DoubleQuote", o + 1, <<>>)
         [] c = 92 -> Escape(src, o)
         [] c = 123 -> Lx("StringLBrace", o + 1, <<>>)
         [] c = 125 -> Lx("StringRBrace", o + 1, <<>>)
         [] c \in Space -> Lx("StringSpace", SkipIn(src, o, Space), <<>>)
         [] c = 44 -> Lx("StringComma", o + 1, <<44>>)
         [] c = 126 -> Lx("StringNBSP", o + 1, <<126>>)
         [] OTHER -> LET k == TextEnd(src, o, q) IN
                     Lx("StringContents", k, Span(src, o, k))

Opens == {"Assign", "LBrace", "LParen", "Concat"}   \* tokens after which '{' opens a string

(* the lexeme at o outside strings; ps: interpret the content of strings *)
Outside(src, o, s, ps) ==
    LET c == At(src, o)
        raw(t, q) == LET k == RawEnd(src, o + 1, 0, q) IN
                     IF k = -1 THEN Lx("Bad", Len(src), <<>>)
                     ELSE [t |-> t, e |-> k + 1, l |-> Span(src, o + 1, k),
                           odd |-> q = 34 /\ Unbalanced(Span(src, o + 1, k), 0, 0)]
        folded(w) == [i \in 1..Len(w) |-> IF w[i] = 383 THEN 115 ELSE w[i]]    \* a long s
        command == LET k == SkipIn(src, o + 1, Letter)
                       w == ToLower(Span(src, o + 1, k))
                   IN IF k = o + 1 THEN Lx("Bad", k, <<>>)
                      ELSE [Lx(CASE w = <<99, 111, 109, 109, 101, 110, 116>> -> "Comment"
                                [] w = <<115, 116, 114, 105, 110, 103>> -> "Abbrev"
                                [] w = <<112, 114, 101, 97, 109, 98, 108, 101>> -> "Preamble"
                                [] OTHER -> "BibEntry",
                              k, Span(src, o, k))
                            EXCEPT !.odd = folded(w) # w /\ folded(w) = <<115, 116, 114, 105, 110, 103>>]
    IN CASE c = EOFC -> Lx("EOF", o, <<>>)
         [] c \in NameChar -> LET k == SkipIn(src, o, NameChar)
                                  w == Span(src, o, k)
                              IN Lx(IF SkipIn(src, o, Digit) = k THEN "Number" ELSE "Ident", k, w)
         [] c = 34 -> IF ps THEN Lx("DoubleQuote", o + 1, <<>>) ELSE raw("String", 34)
         [] c = 123 -> IF s.prev \in Opens
                       THEN IF ps THEN Lx("StringLBrace", o + 1, <<>>) ELSE raw("BraceString", 125)
                       ELSE Lx("LBrace", o + 1, <<>>)
         [] c = 125 -> Lx("RBrace", o + 1, <<>>)
         [] c = 40 -> Lx("LParen", o + 1, <<>>)
         [] c = 41 -> Lx("RParen", o + 1, <<>>)
         [] c = 44 -> Lx("Comma", o + 1, <<>>)
         [] c = 61 -> Lx("Assign", o + 1, <<>>)
         [] c = 35 -> Lx("Concat", o + 1, <<>>)
         [] c = 64 -> command
         [] c = 37 -> LET k == LineEnd(src, o) IN Lx("TexComment", k, Span(src, o, k))
         [] OTHER -> Lx("Bad", o + 1, <<>>)

(* One step: the token and the scanner state behind it. *)
Scan(src, s, ps) ==
    LET o == IF s.eq = 0 THEN SkipIn(src, s.o, Space) ELSE s.o
        x == IF s.eq = 0 THEN Outside(src, o, s, ps) ELSE InString(src, o, s)
        t == IF x.t # "Bad" /\ IllegalIn(src, o, x.e) THEN "Bad" ELSE x.t
        ln == s.ln + Newlines(src, s.o, o)
        eq == IF s.eq = 0
              THEN CASE t = "DoubleQuote" -> 34
                     [] t = "StringLBrace" -> 125
                     [] OTHER -> 0
              ELSE CASE t = "DoubleQuote" -> 0
                     [] t = "StringRBrace" /\ s.eq = 125 /\ s.d = 0 -> 0
                     [] OTHER -> s.eq
        d == IF s.eq = 0 THEN 0
             ELSE CASE t = "StringLBrace" -> s.d + 1
                    [] t = "StringRBrace" /\ eq # 0 -> s.d - 1
                    [] OTHER -> s.d
    IN [tok |-> [t |-> t, p |-> o, e |-> x.e, l |-> x.l, odd |-> x.odd, ln |-> ln],
        s |-> [o |-> x.e,
               prev |-> IF s.eq = 0 /\ t # "TexComment" THEN t ELSE s.prev,
               eq |-> eq, d |-> d,
               ln |-> ln + Newlines(src, o, Min2(x.e, Len(src)))]]
============================================================================
