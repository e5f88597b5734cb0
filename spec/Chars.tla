------------------------------- MODULE Chars -------------------------------
(* The character classes of BibTeX source text.  A source text is a sequence *)
(* of code points; -1 stands for a byte that is not part of valid UTF-8.     *)
(* Offsets are 0-based indices into that sequence.                           *)
EXTENDS Integers, Sequences, FiniteSets

EOFC == -2          \* the character read past the end of the source
BadByte == -1
NUL == 0
BOM == 65279

At(src, o) == IF o >= 0 /\ o < Len(src) THEN src[o + 1] ELSE EOFC

Span(src, a, b) == SubSeq(src, a + 1, b)      \* characters a .. b-1

Digit   == 48..57
LowerAZ == 97..122
UpperAZ == 65..90
AsciiLetter == LowerAZ \cup UpperAZ

(* The non-ASCII letters the specification knows the case of; inputs used    *)
(* for conformance keep to these.                                            *)
UpperExt == ((192..222) \ {215})                    \* Latin-1
            \cup {c \in 256..311 : c % 2 = 0}        \* Latin Extended-A; 304 is the dotted I
            \cup {c \in 313..328 : c % 2 = 1} \cup {c \in 330..375 : c % 2 = 0} \cup {376, 377, 379, 381}
            \cup ((913..939) \ {930}) \cup (1040..1071) \* Greek, Cyrillic
            \cup {8490}                               \* the Kelvin sign
LowerExt == ((223..255) \ {247})
            \cup {c \in 256..311 : c % 2 = 1} \cup {312, 329, 383}   \* 383 is the long s
            \cup {c \in 313..328 : c % 2 = 0} \cup {c \in 330..375 : c % 2 = 1} \cup {378, 380, 382}
            \cup (945..971) \cup (1072..1103)
OtherExt == {170, 181, 186} \cup (19968..40895) \cup (12354..12438) \cup (1488..1514) \cup (64256..64262)     \* letters without another case
LetterExt == UpperExt \cup LowerExt \cup OtherExt

Letter == AsciiLetter \cup {95} \cup LetterExt    \* of a command name
IsUpper(c) == c \in UpperAZ \cup UpperExt

Low(c) == IF c \in UpperAZ THEN c + 32
          ELSE IF c < 192 THEN c
          ELSE CASE c = 215 -> 215 [] c <= 222 -> c + 32 [] c = 304 -> 105 [] c = 376 -> 255 [] c = 8490 -> 107
               [] (c \in 913..939 \/ c \in 1040..1071) /\ c # 930 -> c + 32
               [] c \in UpperExt -> c + 1 [] OTHER -> c
ToLower(s) == [i \in 1..Len(s) |-> Low(s[i])]

Space == {32, 9, 10, 13}

(* letters, digits and ! $ & * + - . / : ; < > ? [ ] ^ _ ` |                *)
NameChar == AsciiLetter \cup Digit \cup
            {33, 36, 38, 42, 43, 45, 46, 47, 58, 59, 60, 62, 63, 91, 93, 94, 95, 96, 124}

AccentChar == {39, 99, 94, 46, 96, 126, 34}        \* ' c ^ . ` ~ "
EscapeChar == {92, 36, 38, 37, 123, 125, 95}       \* \ $ & % { } _
MacroSymbol == {44, 59, 91, 93, 40, 41}            \* , ; [ ] ( )

(* What ends a run of plain text inside a string (the double quote depends   *)
(* on context and is handled by the scanner).                                *)
StringSpecial == {36, 123, 125, 44, 126, 92} \cup Space

IllegalAt(src, o) ==
    LET c == src[o + 1] IN c = NUL \/ c = BadByte \/ (c = BOM /\ o > 0)
IllegalIn(src, a, b) == \E o \in a..(b - 1) : IllegalAt(src, o)

(* Runs of characters are passed in stretches, for the sake of long ones.    *)
Stretch == 48
All(src, o, cls) == o + Stretch <= Len(src) /\ \A i \in 1..Stretch : src[o + i] \in cls
None(src, o, cls) == o + Stretch <= Len(src) /\ \A i \in 1..Stretch : src[o + i] \notin cls

RECURSIVE SkipIn(_, _, _)        \* first offset >= o whose character is not in cls
SkipIn(src, o, cls) == IF At(src, o) \notin cls THEN o
                       ELSE SkipIn(src, o + (IF All(src, o, cls) THEN Stretch ELSE 1), cls)

RECURSIVE SkipTo(_, _, _)        \* first offset >= o whose character is in cls, or the end
SkipTo(src, o, cls) == IF o >= Len(src) \/ At(src, o) \in cls THEN o
                       ELSE SkipTo(src, o + (IF None(src, o, cls) THEN Stretch ELSE 1), cls)

Width(c) == IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4

Newlines(src, a, b) == Cardinality({o \in a..(b - 1) : src[o + 1] = 10})

Min2(a, b) == IF a < b THEN a ELSE b
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
============================================================================
