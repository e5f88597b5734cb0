------------------------------- MODULE Render -------------------------------
(* The renderers.                                                             *)
(* 1. The configurable renderer: a walk in which each call writes something.  *)
(*    State: the walk, the output, the calls each replacement has seen.       *)
(* 2. The text renderer: a list of pieces still to write, and the output.     *)
EXTENDS Walk, Accents

(* ---- 1. ------------------------------------------------------------------*)
(* What the default renderer of a node writes on entering and on leaving;     *)
(* bad: it fails instead.                                                     *)
Out(s) == [bad |-> FALSE, s |-> s]
BadOut == [bad |-> TRUE, s |-> <<>>]

Default(n, entering) ==
    CASE K(n) \in {"BadExpr", "BadStmt"} -> BadOut
      [] K(n) = "Parsed" -> Out(IF Str(n) = <<34>> THEN <<34>> ELSE IF entering THEN <<123>> ELSE <<125>>)
      [] K(n) = "Math" -> Out(IF entering THEN <<36>> \o Str(n) ELSE <<36>>)
      [] ~entering -> Out(<<>>)
      [] K(n) \in {"Text", "Ident"} -> Out(Str(n))
      [] K(n) = "Accent" -> IF CanAccent(Num(n), Str(n)) THEN Out(<<AccentOf(Num(n), Str(n))>>) ELSE BadOut
      [] K(n) = "Comma" -> Out(<<44>>)
      [] K(n) = "Escaped" -> Out(<<92>> \o Str(n))
      [] K(n) = "Hyphen" -> Out(<<45>>)
      [] K(n) = "NBSP" -> Out(<<32>>)
      [] K(n) = "Space" -> Out(IF Str(n) = <<>> THEN <<32>> ELSE Str(n))
      [] OTHER -> Out(<<>>)

(* A replacement is <<kind, removed, what it writes, its answers>>; the last  *)
(* one for a kind counts.                                                     *)
ReplFor(repls, n) ==
    LET is == {i \in 1..Len(repls) : repls[i][1] = KindOf(n)} IN
    IF is = {} THEN 0 ELSE CHOOSE i \in is : \A j \in is : j <= i

RInit(root, repls) == [w |-> WInit(root), out |-> <<>>, calls |-> <<>>, err |-> FALSE,
                       used |-> [i \in 1..Len(repls) |-> 0]]

(* One call on the chosen candidate (0: leave the innermost node).            *)
RStep(r, repls, cand) ==
    LET entering == cand > 0
        n == IF entering THEN NextNode(r.w, cand) ELSE TopNode(r.w)
        go(w, a) == IF entering THEN EnterNode(w, cand, a) ELSE LeaveNode(w, a)
        i == ReplFor(repls, n)
        fail == [r EXCEPT !.w.st = "done", !.err = TRUE]
    IN IF i = 0
       THEN LET d == Default(n, entering) IN
            IF d.bad THEN fail ELSE [r EXCEPT !.out = @ \o d.s, !.w = go(r.w, "go")]
       ELSE IF repls[i][2] = 1 THEN fail
       ELSE LET u == r.used[i] + 1
                a == IF u <= Len(repls[i][4]) THEN repls[i][4][u] ELSE "go"
                w1 == go(r.w, a)
            IN [r EXCEPT !.out = @ \o repls[i][3], !.used[i] = u,
                         !.calls = Append(@, <<i, Id(n), IF entering THEN 1 ELSE 0>>),
                         !.w = w1, !.err = w1.err]

(* ---- 2. ------------------------------------------------------------------*)
TInit(n) == [todo |-> <<n>>, out |-> <<>>, st |-> "run", odd |-> FALSE]

TStep(t) ==
    IF t.todo = <<>> THEN [t EXCEPT !.st = "end"]
    ELSE LET n == Head(t.todo)
             write(s) == [t EXCEPT !.todo = Tail(@), !.out = @ \o s]
         IN CASE K(n) = "Parsed" -> [t EXCEPT !.todo = Kids(n) \o Tail(@)]
              [] K(n) = "Macro" -> [t EXCEPT !.todo = Kids(n) \o Tail(@)]
              [] K(n) \in {"Text", "Escaped"} -> write(Str(n))
              [] K(n) = "Math" -> write(<<36>> \o Str(n) \o <<36>>)
              [] K(n) = "Comma" -> write(<<44>>)
              [] K(n) = "Hyphen" -> write(<<45>>)
              [] K(n) \in {"NBSP", "Space"} -> write(<<32>>)
              [] K(n) = "Accent" -> IF CanAccent(Num(n), Str(n)) THEN write(<<AccentOf(Num(n), Str(n))>>)
                                    ELSE [t EXCEPT !.st = "err"]
              [] OTHER -> [t EXCEPT !.st = "err", !.odd = TRUE]   \* not part of a parsed string

RECURSIVE TRun(_)
TRun(t) == IF t.st = "run" THEN TRun(TStep(t)) ELSE t
TextOf(n) == TRun(TInit(n))
=============================================================================
