------------------------------- MODULE Options -------------------------------
(* An instance: its parser mode, its resolvers in order, and the renderers    *)
(* that were replaced (kind -> replacement, 0: removed).  Building one        *)
(* applies options from left to right.                                        *)
(*   <<"mode", m>>  <<"res", <<ids>>>>  <<"rend", kind, id>>                  *)
EXTENDS Integers, Sequences, FiniteSets

Fresh == [mode |-> 2, res |-> <<>>, rend |-> <<>>]

ApplyOption(b, o) ==
    CASE o[1] = "mode" -> [b EXCEPT !.mode = o[2]]
      [] o[1] = "res" -> [b EXCEPT !.res = @ \o o[2]]
      [] o[1] = "rend" -> [b EXCEPT !.rend = [k \in DOMAIN @ \cup {o[2]} |-> IF k = o[2] THEN o[3] ELSE @[k]]]

RECURSIVE Build(_, _)
Build(b, os) == IF os = <<>> THEN b ELSE Build(ApplyOption(b, Head(os)), Tail(os))
New(os) == Build(Fresh, os)

HasBit(m, bit) == (m \div bit) % 2 = 1

(* One call of Resolve: resolver id sees the marks left by those before it,   *)
(* and leaves its own; id 9 fails.                                            *)
FailId == 9
RECURSIVE Pipeline(_, _, _, _)
Pipeline(res, i, ran, marks) ==
    IF i > Len(res) THEN [ran |-> ran, marks |-> marks, err |-> FALSE, at |-> 0]
    ELSE LET r == Append(ran, <<res[i], marks>>) IN
         IF res[i] = FailId THEN [ran |-> r, marks |-> marks, err |-> TRUE, at |-> i]
         ELSE Pipeline(res, i + 1, r, Append(marks, res[i]))
Resolve(b) == Pipeline(b.res, 1, <<>>, <<>>)

(* Rendering {t,\%} : replacement id writes "<id>" on entering.               *)
Probe == << <<"Parsed", <<123>>>>, <<"Text", <<116>>>>, <<"Comma", <<44>>>>, <<"Escaped", <<92, 37>>>>, <<"Parsed", <<125>>>> >>
RECURSIVE Rendered(_, _, _)
Rendered(b, ps, out) ==
    IF ps = <<>> THEN [out |-> out, err |-> FALSE]
    ELSE LET k == Head(ps)[1] IN
         IF k \notin DOMAIN b.rend THEN Rendered(b, Tail(ps), out \o Head(ps)[2])
         ELSE IF b.rend[k] = 0 THEN [out |-> out, err |-> TRUE]
         ELSE Rendered(b, Tail(ps), out \o <<60, 48 + b.rend[k], 62>>)
==============================================================================
