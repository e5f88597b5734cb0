------------------------------- MODULE MCScope -------------------------------
(* All histories of N operations: checks the guarantees on the machine, and   *)
(* prints each history for the replay into the code.                          *)
EXTENDS Scope, TLC, Json, IOUtils

N == atoi(IOEnv.N)
Pool == << <<"a", "bib", "a", 7, "entry">>, <<"a", "none", "", 0, "bad">>, <<"b", "bib", "a", 3, "entry">>,
           <<"", "bib", "", 9, "abbrev">>, <<"a", "abbrev", "a", 5, "abbrev">> >>
Names == {"a", "b", "", "c"}
VARIABLES ss, h, first, pool  \* h: history; first: <<scope, name>> -> object inserted first
vars == <<ss, h, first, pool>>

Ops == {<<"new", o>> : o \in IF Len(ss) < 4 THEN 0..Len(ss) ELSE {}}
       \cup {<<"ins", s, o>> : s \in 1..Len(ss), o \in 1..Len(Pool)}
       \cup {<<"ren", o, n>> : o \in {1, 3}, n \in {"a", "b"}}

Init == pool = Pool /\ ss = <<NewScope(0), NewScope(1), NewScope(1)>> /\ h = <<>> /\ first = <<>>
Next == /\ Len(h) < N
        /\ \E op \in Ops :
             LET r == Do(ss, op, pool)
                 k == IF op[1] = "ins" THEN <<op[2], pool[op[3]][1]>> ELSE <<>>
             IN /\ ss' = r.ss
                /\ h' = Append(h, op)
                /\ pool' = Rename(pool, op)
                /\ first' = IF k = <<>> \/ k \in DOMAIN first THEN first
                            ELSE [x \in DOMAIN first \cup {k} |-> IF x = k THEN op[3] ELSE first[x]]
                /\ (op[1] = "ins" => (r.res = 0) = (k \notin DOMAIN first))
                /\ Len(h') = N => PrintT("HIST " \o ToJson(h'))
Spec == Init /\ [][Next]_vars

(* Lookup finds exactly the object inserted first under that name in that     *)
(* very scope.                                                                *)
FirstWins == \A s \in 1..Len(ss) : \A n \in Names :
    Do(ss, <<"look", s, n>>, pool).res = IF <<s, n>> \in DOMAIN first THEN first[<<s, n>>] ELSE 0
Kept == [][\A s \in 1..Len(ss) : \A n \in DOMAIN ss[s].objs : ss'[s].objs[n] = ss[s].objs[n]]_vars
==============================================================================
