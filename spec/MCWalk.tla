------------------------------- MODULE MCWalk --------------------------------
(* All walks of some trees, with every choice of answers of which at most     *)
(* NOTGO differ from "go": what a walk promises holds whatever is answered.   *)
(* Finished walks are printed for replay into the code.                       *)
EXTENDS Walk, Json, IOUtils, TLC

Trees == JsonDeserialize(IOEnv.TREES)
NotGo == atoi(IOEnv.NOTGO)
Answers == {"skip", "stop", "go!", "skip!", "stop!"}

VARIABLES t, w, calls, ans, left
vars == <<t, w, calls, ans, left>>

Init == /\ t \in 1..Len(Trees)
        /\ w = WInit(Trees[t])
        /\ calls = <<>> /\ ans = <<>> /\ left = NotGo

Step(a) ==
    \/ \E i \in Candidates(w) : /\ w' = EnterNode(w, i, a)
                                /\ calls' = Append(calls, <<Id(NextNode(w, i)), 1>>)
    \/ /\ Candidates(w) = {} /\ w.stk # <<>>
       /\ w' = LeaveNode(w, a)
       /\ calls' = Append(calls, <<Id(TopNode(w)), 0>>)
Next == /\ w.st = "run"
        /\ \/ Step("go") /\ ans' = Append(ans, "go") /\ left' = left
           \/ left > 0 /\ \E a \in Answers : Step(a) /\ ans' = Append(ans, a) /\ left' = left - 1
        /\ t' = t
Spec == Init /\ [][Next]_vars

(* ---- what a walk promises, said about the calls --------------------------- *)
Root == Trees[t]
All == Nodes(Root)
Node_(id) == CHOOSE n \in All : Id(n) = id
ParentOf(id) == {n \in All : \E i \in 1..Len(Visited(n)) : Id(Visited(n)[i]) = id}
EnterAt(id) == {i \in 1..Len(calls) : calls[i] = <<id, 1>>}
LeaveAt(id) == {i \in 1..Len(calls) : calls[i] = <<id, 0>>}
Entered(id) == EnterAt(id) # {}
Gone(id) == LeaveAt(id) # {}
The(S) == CHOOSE x \in S : TRUE

Distinct == \A m, n \in All : Id(m) = Id(n) => m = n
Once == \A n \in All : Cardinality(EnterAt(Id(n))) <= 1 /\ Cardinality(LeaveAt(Id(n))) <= 1
(* a node is left after it was entered; its parent's visit encloses its own   *)
Nested == \A n \in All :
    /\ Gone(Id(n)) => Entered(Id(n)) /\ The(EnterAt(Id(n))) < The(LeaveAt(Id(n)))
    /\ Entered(Id(n)) /\ Id(n) # Id(Root) =>
         LET p == The(ParentOf(Id(n))) IN
         /\ Entered(Id(p)) /\ The(EnterAt(Id(p))) < The(EnterAt(Id(n)))
         /\ ans[The(EnterAt(Id(p)))] = "go"                       \* not skipped
         /\ Gone(Id(p)) => Gone(Id(n)) /\ The(LeaveAt(Id(n))) < The(LeaveAt(Id(p)))
(* children one after the other, in order                                     *)
InOrder == \A n \in All : \A i \in 1..Len(Visited(n)) : \A j \in 1..Len(Visited(n)) :
    LET a == Id(Visited(n)[i])
        b == Id(Visited(n)[j])
    IN i < j /\ Entered(b) /\ K(n) # "Package" => Gone(a) /\ The(LeaveAt(a)) < The(EnterAt(b))
(* a node is left only when all below it was visited, or it was skipped       *)
Complete == \A n \in All : Gone(Id(n)) =>
    LET a == ans[The(EnterAt(Id(n)))] IN
    \A i \in 1..Len(Visited(n)) : Gone(Id(Visited(n)[i])) = (a = "go")
Ends == LET a == IF ans = <<>> THEN "go" ELSE ans[Len(ans)] IN
        /\ w.st = "done" <=> a \in {"stop", "go!", "skip!", "stop!"} \/ Gone(Id(Root))
        /\ w.st = "done" => w.err = IsErr(a)
        /\ \A i \in 1..(Len(ans) - 1) : ans[i] \in {"go", "skip"}
Plain == w.st = "done" /\ left = NotGo => Len(calls) = 2 * Size(Root) /\ \A n \in All : Gone(Id(n))
Inv == Distinct /\ Once /\ Nested /\ InOrder /\ Complete /\ Ends /\ Plain
       /\ (w.st = "done" => PrintT("WALK " \o ToJson(<<t, ans>>)))
==============================================================================
