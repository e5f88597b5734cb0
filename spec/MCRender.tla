------------------------------ MODULE MCRender -------------------------------
(* The renderers on some trees and all short lists of replacements.  What     *)
(* they write is what a definition by structure of the tree says.             *)
EXTENDS Render, Json, IOUtils, TLC

Trees == JsonDeserialize(IOEnv.TREES)
Pool == JsonDeserialize(IOEnv.POOL)        \* replacements to choose from
Most == atoi(IOEnv.LEN)

VARIABLES t, repls, r, x
vars == <<t, repls, r, x>>
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE LET s == Lists(n - 1) IN s \cup {Append(l, Pool[i]) : l \in s, i \in 1..Len(Pool)}
Init == /\ t \in 1..Len(Trees)
        /\ repls \in Lists(Most)
        /\ r = RInit(Trees[t], repls)
        /\ x = TInit(Trees[t])
Cand == IF Candidates(r.w) = {} THEN 0 ELSE 1
Next == \/ r.w.st = "run" /\ r' = RStep(r, repls, Cand) /\ UNCHANGED <<t, repls, x>>
        \/ r.w.st # "run" /\ x.st = "run" /\ x' = TStep(x) /\ UNCHANGED <<t, repls, r>>
Spec == Init /\ [][Next]_vars

Root == Trees[t]
(* ---- by structure: <<failed, text>> ---------------------------------------- *)
RECURSIVE Plain(_)
RECURSIVE PlainAll(_)
Seq2(a, b) == IF a[1] THEN a ELSE <<b[1], a[2] \o b[2]>>
PlainAll(ks) == IF ks = <<>> THEN <<FALSE, <<>>>> ELSE Seq2(Plain(Head(ks)), PlainAll(Tail(ks)))
One(d) == <<d.bad, d.s>>
Plain(n) == Seq2(One(Default(n, TRUE)), Seq2(PlainAll(Visited(n)), One(Default(n, FALSE))))

RECURSIVE Tex(_)
RECURSIVE TexAll(_)
TexAll(ks) == IF ks = <<>> THEN <<FALSE, <<>>>> ELSE Seq2(Tex(Head(ks)), TexAll(Tail(ks)))
Tex(n) == CASE K(n) \in {"Parsed", "Macro"} -> TexAll(Kids(n))
            [] K(n) \in {"Text", "Escaped"} -> <<FALSE, Str(n)>>
            [] K(n) = "Math" -> <<FALSE, <<36>> \o Str(n) \o <<36>>>>
            [] K(n) = "Comma" -> <<FALSE, <<44>>>>
            [] K(n) = "Hyphen" -> <<FALSE, <<45>>>>
            [] K(n) \in {"Space", "NBSP"} -> <<FALSE, <<32>>>>
            [] K(n) = "Accent" /\ CanAccent(Num(n), Str(n)) -> <<FALSE, <<AccentOf(Num(n), Str(n))>>>>
            [] OTHER -> <<TRUE, <<>>>>

(* ---- invariants --------------------------------------------------------------*)
Same(err, out, e) == err = e[1] /\ (IF err THEN Prefix(out, e[2]) /\ Prefix(e[2], out) ELSE out = e[2])
NoRepl == repls = <<>> /\ r.w.st # "run" => Same(r.err, r.out, Plain(Root))
TextInv == x.st # "run" => Same(x.st = "err", x.out, Tex(Root))
(* replacements for kinds that do not occur change nothing                     *)
Present == {KindOf(n) : n \in Nodes(Root)}
Absent == /\ r.w.st # "run"
          /\ \A i \in 1..Len(repls) : repls[i][1] \notin Present
          => Same(r.err, r.out, Plain(Root)) /\ r.calls = <<>>
(* only the last replacement for a kind is called, with nodes of the kind      *)
ById(id) == CHOOSE n \in Nodes(Root) : Id(n) = id
CallsInv == \A i \in 1..Len(r.calls) :
               LET c == r.calls[i] IN
               /\ KindOf(ById(c[2])) = repls[c[1]][1]
               /\ \A j \in (c[1] + 1)..Len(repls) : repls[j][1] # repls[c[1]][1]
               /\ repls[c[1]][2] = 0
(* every node of a replaced kind is given to it on entering and on leaving,    *)
(* unless an answer or an error got in the way                                 *)
AlwaysGo == \A i \in 1..Len(repls) : repls[i][2] = 0 /\ \A j \in 1..Len(repls[i][4]) : repls[i][4][j] = "go"
All2 == /\ r.w.st # "run" /\ ~r.err /\ AlwaysGo =>
           \A n \in Nodes(Root) : ReplFor(repls, n) # 0 =>
              \A e \in {0, 1} : Cardinality({i \in 1..Len(r.calls) : r.calls[i] = <<ReplFor(repls, n), Id(n), e>>}) = 1
Grows == [][Prefix(r.out, r'.out) /\ Prefix(x.out, x'.out) /\ Prefix(r.calls, r'.calls)]_vars
Inv == NoRepl /\ TextInv /\ Absent /\ CallsInv /\ All2
       /\ (x.st # "run" => PrintT("RENDER " \o ToJson(<<t, repls>>)))
==============================================================================
