------------------------------ MODULE Resolve -------------------------------
(* Resolving.  State: the tree, the resolvers still to run, what the logging  *)
(* resolvers saw.  One step runs one resolver, which may change the tree or   *)
(* fail; when none is left the entries are built.                             *)
EXTENDS Authors, Render

(* a resolver is <<name, argument, ...>>:                                     *)
(*   authors f1 f2 ..  escape  render  log  fail  tag name value              *)
Fine(t) == [ok |-> TRUE, t |-> t, odd |-> FALSE]
Fail(t) == [ok |-> FALSE, t |-> t, odd |-> FALSE]

(* Applies Op (node -> result) to the visited children, first failure wins.   *)
RECURSIVE EachKid(_, _, _)
EachKid(Op(_), ks, i) ==
    IF i > Len(ks) THEN [ok |-> TRUE, ks |-> ks, odd |-> FALSE]
    ELSE LET x == IF K(ks[i]) \in {"nil", "Key"} THEN Fine(ks[i]) ELSE Op(ks[i])
         IN IF ~x.ok THEN [ok |-> FALSE, ks |-> ks, odd |-> x.odd]
            ELSE LET y == EachKid(Op, [ks EXCEPT ![i] = x.t], i + 1)
                 IN [y EXCEPT !.odd = @ \/ x.odd]
OnKids(Op(_), n) ==
    LET r == EachKid(Op, Kids(n), 1) IN
    [ok |-> r.ok, t |-> IF r.ok THEN WithKids(n, r.ks) ELSE n, odd |-> r.odd]

RECURSIVE ToAuthors(_, _)
ToAuthors(n, fields) ==
    IF K(n) # "TagStmt" THEN LET Op(x) == ToAuthors(x, fields) IN OnKids(Op, n)
    ELSE IF Str(n) \notin fields THEN LET Op(x) == ToAuthors(x, fields) IN OnKids(Op, n)
    ELSE LET v == Kids(n)[1] IN
         IF K(v) # "Parsed" THEN Fail(n)
         ELSE LET a == AuthorsOf(v)
                  part(s) == Text(s)
                  author(nm) == <<"Author", 0, -1, 0, <<>>, [i \in 1..4 |-> part(nm[i])]>>
              IN IF a.st # "end" THEN [Fail(n) EXCEPT !.odd = a.odd]
                 ELSE [Fine(WithKids(n, <<<<"Authors", 0, -1, 0, <<>>,
                                            [i \in 1..Len(a.done) |-> author(a.done[i])]>>>>))
                       EXCEPT !.odd = a.odd]

RECURSIVE Unescape(_, _)
Unescape(n, inParsed) ==
    IF K(n) = "Escaped" /\ inParsed THEN Fine(Text(Str(n)))
    ELSE LET Op(x) == Unescape(x, K(n) = "Parsed") IN OnKids(Op, n)

RECURSIVE Readable(_)
Readable(n) ==
    IF K(n) = "TagStmt" /\ K(Kids(n)[1]) = "Parsed"
    THEN LET t == TextOf(Kids(n)[1]) IN
         IF t.st = "end" THEN Fine(WithKids(n, <<Text(t.out)>>)) ELSE Fail(n)
    ELSE OnKids(Readable, n)

RECURSIVE AddTag(_, _, _)
AddTag(n, f, s) ==
    IF K(n) = "BibDecl"
    THEN Fine(WithKids(n, Append(Kids(n), <<"TagStmt", 0, -1, 0, f, <<Text(s)>>>>)))
    ELSE LET Op(x) == AddTag(x, f, s) IN OnKids(Op, n)

Range(s) == {s[i] : i \in 1..Len(s)}

Apply(p, n) ==
    CASE p[1] = "authors" -> ToAuthors(n, Range(Tail(p)))
      [] p[1] = "escape" -> Unescape(n, FALSE)
      [] p[1] = "render" -> Readable(n)
      [] p[1] = "tag" -> AddTag(n, p[2], p[3])
      [] p[1] = "log" -> Fine(n)
      [] p[1] = "fail" -> Fail(n)

Logs(p) == p[1] \in {"log", "fail", "tag"}

(* ---- the machine ----------------------------------------------------------*)
PInit(n) == [st |-> "run", i |-> 1, t |-> n, ran |-> <<>>, odd |-> FALSE, pass |-> 1]

PStep(m, pipe, passes) ==
    IF m.i > Len(pipe)
    THEN IF m.pass < passes THEN [m EXCEPT !.i = 1, !.pass = @ + 1] ELSE [m EXCEPT !.st = "end"]
    ELSE LET p == pipe[m.i]
             r == Apply(p, m.t)
             m1 == [m EXCEPT !.ran = IF Logs(p) THEN Append(@, <<m.i - 1, 1>>) ELSE @,
                             !.odd = @ \/ r.odd]
         IN IF r.ok THEN [m1 EXCEPT !.t = r.t, !.i = @ + 1]
            ELSE IF m.pass < passes THEN [m1 EXCEPT !.i = 1, !.pass = @ + 1, !.odd = TRUE]
            ELSE [m1 EXCEPT !.st = "fail"]

(* ---- entries --------------------------------------------------------------*)
KeyOf(d) == LET ks == SelectSeq(Kids(d), LAMBDA k : K(k) = "Key" /\ Num(k) = 0) IN   \* 1: an extra key
            IF ks = <<>> THEN <<>> ELSE Str(ks[1])
TagsOf(d) == SelectSeq(Kids(d), LAMBDA k : K(k) = "TagStmt")

(* field name -> last value *)
FieldsOf(d) ==
    LET ts == TagsOf(d) IN
    {<<Str(ts[i]), Strip(Kids(ts[i])[1])>> :
       i \in {j \in 1..Len(ts) : \A k \in (j + 1)..Len(ts) : Str(ts[k]) # Str(ts[j])}}

EntryOf(d) == <<Str(d), KeyOf(d), FieldsOf(d)>>

BibDecls(f) == SelectSeq(Kids(f), LAMBDA d : K(d) = "BibDecl")
Map1(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

(* The lists of entries allowed for a tree; the files of a package may come   *)
(* in any order.                                                              *)
FileEntries(f) == Map1(EntryOf, BibDecls(f))
RECURSIVE Orders(_)
Orders(S) == IF S = {} THEN {<<>>} ELSE UNION {{<<x>> \o o : o \in Orders(S \ {x})} : x \in S}
RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Entries(n) ==
    CASE K(n) = "BibDecl" -> {<<EntryOf(n)>>}
      [] K(n) = "File" -> {FileEntries(n)}
      [] K(n) = "Package" ->
           LET fs == Kids(n)
               pick(o) == Cat([i \in 1..Len(o) |-> FileEntries(fs[o[i]])])
           IN {pick(o) : o \in Orders(1..Len(fs))}
      [] OTHER -> {}
=============================================================================
