-------------------------------- MODULE Names --------------------------------
(* The writer of author lists: puts down the words of names one by one,       *)
(* with their text, and knows which part of the name each belongs to from     *)
(* the form of the name being written:                                        *)
(*    "plain"   First von Last                                                *)
(*    "one"     von Last, First                                               *)
(*    "two"     von Last, Jr, First                                           *)
(* Words are <<source, text, case>>: case "U", "L", or "N" for one without;   *)
(* a word with text <<>> has no readable form.                                *)
EXTENDS Integers, Sequences

Nobody == <<<<>>, <<>>, <<>>, <<>>>>          \* first, prefix, last, suffix: words
Blank == [src |-> <<>>, done |-> <<>>, cur |-> Nobody, form |-> "", ph |-> "start", bad |-> FALSE, words |-> 0]

Put(n, s) == [n EXCEPT !.src = @ \o s]
Add(n, part, w) == [n EXCEPT !.cur[part] = Append(@, w[2]), !.bad = @ \/ w[2] = <<>>, !.words = @ + 1]

Begin(n, form) == [n EXCEPT !.form = form, !.ph = IF form = "plain" THEN "first" ELSE "prefix"]

(* a word of the part being written; a lower case word ends the first name,   *)
(* any other word the prefix                                                  *)
Word(n, gap, w) ==
    LET m == Put(n, gap \o w[1]) IN
    CASE n.ph = "first" -> IF n.cur[1] = <<>> \/ w[3] # "L" THEN Add(m, 1, w) ELSE [Add(m, 2, w) EXCEPT !.ph = "prefix"]
      [] n.ph = "prefix" -> IF w[3] = "L" THEN Add(m, 2, w) ELSE [Add(m, 3, w) EXCEPT !.ph = "last"]
      [] n.ph = "last" -> Add(m, 3, w)
      [] n.ph = "suffix" -> Add(m, 4, w)
      [] n.ph = "given" -> Add(m, 1, w)

(* there is always a family name: the last word, if nothing else              *)
Family(n) ==
    LET c == n.cur
        k == Len(c[2])
        f == Len(c[1])
    IN IF c[3] # <<>> THEN n
       ELSE IF k > 0 THEN [n EXCEPT !.cur = <<c[1], SubSeq(c[2], 1, k - 1), <<c[2][k]>>, c[4]>>]
       ELSE IF n.form = "plain" /\ f > 0 THEN [n EXCEPT !.cur = <<SubSeq(c[1], 1, f - 1), c[2], <<c[1][f]>>, c[4]>>]
       ELSE n
Comma(n, gap) ==
    IF n.form = "one" THEN [Family(Put(n, gap)) EXCEPT !.ph = "given"]
    ELSE IF n.ph \in {"prefix", "last"} THEN [Family(Put(n, gap)) EXCEPT !.ph = "suffix"]
    ELSE [Put(n, gap) EXCEPT !.ph = "given"]

RECURSIVE Joined(_)
Joined(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<32>> \o Joined(Tail(ws))

(* the name is complete: an "and", or the end                                 *)
Finish(n) ==
    LET c == Family(n).cur
        nm == [i \in 1..4 |-> Joined(c[i])]
    IN [n EXCEPT !.done = Append(@, nm), !.bad = @ \/ (\A i \in 1..4 : c[i] = <<>>),
                 !.cur = Nobody, !.form = "", !.ph = "start"]
And(n, gap, after) == [Put(Finish(n), gap \o <<97, 110, 100>> \o after) EXCEPT !.words = @ + 1]
==============================================================================
