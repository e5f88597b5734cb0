------------------------------ MODULE MCOptions ------------------------------
(* Every list of at most N options: checks what the options promise, and      *)
(* prints each list for the replay into the code.                             *)
EXTENDS Options, TLC, Json, IOUtils
N == atoi(IOEnv.N)
Menu == {<<"mode", 2>>, <<"mode", 16>>, <<"mode", 0>>, <<"mode", 18>>,
         <<"res", <<>>>>, <<"res", <<1>>>>, <<"res", <<2, 3>>>>, <<"res", <<9>>>>, <<"res", <<1, 9, 2>>>>,
         <<"rend", "Text", 1>>, <<"rend", "Text", 2>>, <<"rend", "Comma", 1>>, <<"rend", "Comma", 0>>}
VARIABLES os, b
vars == <<os, b>>
Init == os = <<>> /\ b = Fresh /\ PrintT("OPTS " \o ToJson(os))
Next == /\ Len(os) < N
        /\ \E o \in Menu : os' = Append(os, o) /\ b' = ApplyOption(b, o) /\ PrintT("OPTS " \o ToJson(os'))
Spec == Init /\ [][Next]_vars

RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s)[1] = "res" THEN Head(s)[2] ELSE <<>>) \o Cat(Tail(s))
LastOf(P(_), default) ==
    LET is == {i \in 1..Len(os) : P(os[i])} IN
    IF is = {} THEN default ELSE os[CHOOSE i \in is : \A j \in is : j <= i]
ModeIsLast == b.mode = LastOf(LAMBDA o : o[1] = "mode", <<"mode", 2>>)[2]
InOrder == b.res = Cat(os)
RendIsLast == \A k \in DOMAIN b.rend : b.rend[k] = LastOf(LAMBDA o : o[1] = "rend" /\ o[2] = k, <<>>)[3]
(* Each resolver ran once, in order, on the marks of those before; a failure  *)
(* ends the call.                                                             *)
RunsOnce ==
    LET r == Resolve(b)
        n == IF r.err THEN r.at ELSE Len(b.res)
    IN /\ Len(r.ran) = n
       /\ \A i \in 1..n : r.ran[i] = <<b.res[i], SubSeq(b.res, 1, i - 1)>>
       /\ r.err = (\E i \in 1..Len(b.res) : b.res[i] = FailId)
       /\ r.err => b.res[r.at] = FailId
==============================================================================
