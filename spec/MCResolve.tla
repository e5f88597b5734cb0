------------------------------ MODULE MCResolve ------------------------------
(* All short pipelines of resolvers on some trees, resolved once and twice.   *)
EXTENDS Resolve, Json, IOUtils, TLC

Trees == JsonDeserialize(IOEnv.TREES)
Pool == JsonDeserialize(IOEnv.POOL)        \* resolvers to choose from
Most == atoi(IOEnv.LEN)

VARIABLES t, pipe, passes, m
vars == <<t, pipe, passes, m>>
RECURSIVE Lists(_)
Lists(n) == IF n = 0 THEN {<<>>} ELSE LET s == Lists(n - 1) IN s \cup {Append(l, Pool[i]) : l \in s, i \in 1..Len(Pool)}
Init == /\ t \in 1..Len(Trees)
        /\ pipe \in Lists(Most)
        /\ passes \in {1, 2}
        /\ m = PInit(Trees[t])
Next == m.st = "run" /\ m' = PStep(m, pipe, passes) /\ UNCHANGED <<t, pipe, passes>>
Spec == Init /\ [][Next]_vars

(* Each resolver runs once in a pass, in order, until one fails.              *)
Mine == SelectSeq([i \in 1..Len(pipe) |-> <<i, Logs(pipe[i])>>], LAMBDA p : p[2])
Once == m.pass = 1 => m.ran = [k \in 1..Cardinality({j \in 1..Len(Mine) :
                                     Mine[j][1] < m.i \/ (m.st = "fail" /\ Mine[j][1] = m.i)}) |-> <<Mine[k][1] - 1, 1>>]
FailsAt == {i \in 1..Len(pipe) : pipe[i][1] = "fail"}
Stops == (m.st = "fail" \/ m.pass = 2 => TRUE) /\ (m.st = "end" /\ passes = 1 => FailsAt = {} /\ m.i = Len(pipe) + 1)

(* What the resolvers leave behind.                                            *)
LastOf(S) == CHOOSE i \in S : \A j \in S : j <= i
Ran(k) == m.st = "end" /\ \E i \in 1..Len(pipe) : pipe[i][1] = k
NoEscapes == Ran("escape") =>
    \A n \in Nodes(m.t) : K(n) = "Parsed" => \A i \in 1..Len(Kids(n)) : K(Kids(n)[i]) # "Escaped"
NoStrings == Ran("render") => \A n \in Nodes(m.t) : K(n) = "TagStmt" => K(Kids(n)[1]) # "Parsed"
AuthorsInv == m.st = "end" /\ ~m.odd =>
    \A i \in 1..Len(pipe) : pipe[i][1] = "authors" /\ passes = 1 =>
       \A n \in Nodes(m.t) : K(n) = "TagStmt" /\ Str(n) \in Range(Tail(pipe[i]))
           /\ (\A j \in i..Len(pipe) : pipe[j][1] # "tag") => K(Kids(n)[1]) = "Authors"

(* What they leave alone: entries, their types and keys, the names of fields.  *)
Shape(n) == {<<Id(d), Str(d), KeyOf(d), [i \in 1..Len(TagsOf(d)) |-> Str(TagsOf(d)[i])]>> : d \in {e \in Nodes(n) : K(e) = "BibDecl"}}
NoTag == \A i \in 1..Len(pipe) : pipe[i][1] # "tag"
Kept == NoTag => Shape(m.t) = Shape(Trees[t])
Added == \A d \in {e \in Nodes(m.t) : K(e) = "BibDecl"} : Len(TagsOf(d)) >= Len(TagsOf(CHOOSE e \in Nodes(Trees[t]) : Id(e) = Id(d) /\ K(e) = "BibDecl"))
LogOnly == (\A i \in 1..Len(pipe) : pipe[i][1] \in {"log", "fail"}) => m.t = Trees[t]

(* Taking out escapes or rendering a second time changes nothing more.         *)
Idem == m.st = "end" => /\ LET a == Unescape(m.t, FALSE) IN Unescape(a.t, FALSE) = a
                        /\ LET a == Readable(m.t) IN a.ok => Readable(a.t) = a

(* An entry has each field once, with its last value.                          *)
EntriesInv == m.st = "end" => \A d \in {e \in Nodes(m.t) : K(e) = "BibDecl"} :
    LET fs == FieldsOf(d)
        ts == TagsOf(d)
    IN /\ {f[1] : f \in fs} = {Str(ts[i]) : i \in 1..Len(ts)}
       /\ \A f, g \in fs : f[1] = g[1] => f = g
       /\ ts # <<>> => <<Str(ts[Len(ts)]), Strip(Kids(ts[Len(ts)])[1])>> \in fs
Inv == /\ Once /\ Stops /\ NoEscapes /\ NoStrings /\ AuthorsInv /\ Kept /\ Added /\ LogOnly /\ Idem /\ EntriesInv
       /\ (m.st # "run" => PrintT("PIPE " \o ToJson(<<t, pipe, passes - 1>>)))
==============================================================================
