------------------------------ MODULE MCNames -------------------------------
(* Every author list the writer (Names.tla) can put down in LEN words is      *)
(* parsed and taken apart by the machines of Parser and Authors the way the   *)
(* writer meant it.  The strings are printed for replay into the code.        *)
(*    SET: "few" words, plain white space; "all" of both, for simulation      *)
EXTENDS Authors, IOUtils, TLC, Randomization
P == INSTANCE Parser
W == INSTANCE Names

Fam == IOEnv.SET
Budget == atoi(IOEnv.LEN)

Words_ == IF Fam = "few" THEN
         {<<<<65, 98>>, <<65, 98>>, "U">>, <<<<92, 34, 85, 122>>, <<220, 122>>, "U">>, <<<<118, 111, 110>>, <<118, 111, 110>>, "L">>, <<<<92, 39, 101, 116>>, <<233, 116>>, "L">>, <<<<123, 118, 97, 110, 125>>, <<118, 97, 110>>, "N">>, <<<<123, 97, 110, 100, 125>>, <<97, 110, 100>>, "N">>}
         ELSE
         {<<<<65, 98>>, <<65, 98>>, "U">>,
          <<<<123, 92, 39, 69, 125, 99>>, <<201, 99>>, "U">>,
          <<<<92, 34, 85, 122>>, <<220, 122>>, "U">>,
          <<<<90, 45, 49>>, <<90, 45, 49>>, "U">>,
          <<<<118, 111, 110>>, <<118, 111, 110>>, "L">>,
          <<<<123, 92, 39, 101, 125, 116>>, <<233, 116>>, "L">>,
          <<<<92, 39, 101, 116>>, <<233, 116>>, "L">>,
          <<<<39, 116>>, <<39, 116>>, "L">>,
          <<<<55>>, <<55>>, "L">>,
          <<<<111, 116, 104, 101, 114, 115>>, <<111, 116, 104, 101, 114, 115>>, "L">>,
          <<<<97, 110, 100, 123, 121, 125>>, <<97, 110, 100, 121>>, "L">>,
          <<<<97, 110, 100, 115>>, <<97, 110, 100, 115>>, "L">>,
          <<<<123, 118, 97, 110, 125>>, <<118, 97, 110>>, "N">>,
          <<<<123, 97, 110, 100, 125>>, <<97, 110, 100>>, "N">>,
          <<<<123, 65, 32, 97, 110, 100, 44, 32, 66, 125>>, <<65, 32, 97, 110, 100, 44, 32, 66>>, "N">>,
          <<<<123, 66, 125, 97, 110, 100>>, <<66, 97, 110, 100>>, "N">>,
          <<<<36, 120, 36>>, <<36, 120, 36>>, "N">>,
          <<<<92, 38, 99>>, <<92, 38, 99>>, "N">>,
          <<<<123, 123, 97, 125, 125>>, <<97>>, "N">>,
          <<<<92, 39, 113>>, <<>>, "L">>,
          <<<<123, 92, 46, 113, 125>>, <<>>, "L">>}
Few(k, S) == IF Fam = "all" THEN RandomSubset(Min2(k, Cardinality(S)), S) ELSE S
Gaps(k) == IF Fam = "few" THEN {<<32>>} ELSE Few(k, {<<32>>, <<126>>, <<10, 32>>, <<32, 126>>})
Edges == IF Fam = "few" THEN {<<>>} ELSE Few(1, {<<>>, <<32>>, <<126>>})
Commas == IF Fam = "few" THEN {<<44>>} ELSE Few(1, {<<44>>, <<44, 32>>, <<32, 44>>, <<32, 44, 10>>})

VARIABLE n
vars == <<n>>
Init == n \in {W!Put(W!Blank, e) : e \in IF Fam = "few" THEN {<<>>} ELSE {<<>>, <<32>>}}

Started == n.cur # W!Nobody
(* white space between two words; a comma is a word break already             *)
Space_(g) == IF Started /\ ~(n.src # <<>> /\ n.src[Len(n.src)] \in {32, 44, 126, 10}) THEN g ELSE <<>>

Next ==
    \/ n.ph = "start" /\ n.words < Budget /\ \E f \in {"plain", "one", "two"} : n' = W!Begin(n, f)
    \/ n.ph \notin {"start", "end"} /\ n.words < Budget /\
         \E w \in Few(3, Words_), g \in Gaps(1) : n' = W!Word(n, Space_(g), w)
    \/ /\ Started
       /\ \/ n.form = "one" /\ n.ph \in {"prefix", "last"}
          \/ n.form = "two" /\ n.ph \in {"prefix", "last", "suffix"}
       /\ \E g \in Commas : n' = W!Comma(n, g)
    \/ /\ n.form = "plain" \/ n.ph = "given"
       /\ Started \/ n.done = <<>>
       /\ \/ n.words < Budget /\ \E g \in Gaps(1), h \in Gaps(1) : n' = W!And(n, IF n.src = <<>> \/ n.src[Len(n.src)] \in {32, 44, 126, 10} THEN <<>> ELSE g, h)
          \/ \E e \in Edges : n' = [W!Finish(W!Put(n, e)) EXCEPT !.ph = "end"]
    \/ n.ph = "start" /\ n.src # <<>> /\ n' = [W!Finish(n) EXCEPT !.ph = "end"]    \* an empty author
Spec == Init /\ [][Next]_vars

Understood ==
    LET m == P!ParseExpr(<<61, 123>> \o n.src \o <<125>>) IN
    /\ m.st = "ok"
    /\ LET a == AuthorsOf(m.val[1]) IN
       /\ ~a.odd
       /\ IF n.bad THEN a.st = "err"
          ELSE /\ a.st = "end"
               /\ Len(a.done) = Len(n.done)
               /\ \A i \in 1..Len(a.done) : \A j \in 1..4 : Squeeze(a.done[i][j]) = n.done[i][j]
Inv == n.ph = "end" => Understood /\ PrintT("DOC " \o ToString(n.src) \o " end")
==============================================================================
