-------------------------------- MODULE Walk --------------------------------
(* The tree walk.  State: the path of entered nodes, each with the children   *)
(* still to visit; what happened.  One step is one call of the walker: it     *)
(* enters the next child of the innermost node, or leaves that node when no   *)
(* child is left.  The walker's answer is                                     *)
(*   "go", "skip" (leave out the children), "stop", or one of these with an   *)
(*   error, "go!", "skip!", "stop!".                                          *)
EXTENDS Tree

WInit(root) == [st |-> "run", stk |-> <<>>, todo |-> <<root>>, err |-> FALSE]

(* The nodes that may come next: the files of a package come in any order.    *)
Candidates(w) ==
    LET todo == IF w.stk = <<>> THEN w.todo ELSE w.stk[Len(w.stk)].todo IN
    IF w.stk # <<>> /\ K(w.stk[Len(w.stk)].n) = "Package" THEN 1..Len(todo)
    ELSE IF todo = <<>> THEN {} ELSE {1}

Without(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
IsErr(a) == a \in {"go!", "skip!", "stop!"}

(* the node of the next call if the i-th candidate is chosen *)
NextNode(w, i) == IF w.stk = <<>> THEN w.todo[i] ELSE w.stk[Len(w.stk)].todo[i]
TopNode(w) == w.stk[Len(w.stk)].n

Finished(w) == w.stk = <<>> /\ w.todo = <<>>

EnterNode(w, i, a) ==
    LET n == NextNode(w, i)
        k == Len(w.stk)
        popped == IF k = 0 THEN [w EXCEPT !.todo = Without(@, i)]
                  ELSE [w EXCEPT !.stk[k].todo = Without(@, i)]
    IN IF IsErr(a) THEN [w EXCEPT !.st = "done", !.err = TRUE]
       ELSE IF a = "stop" THEN [w EXCEPT !.st = "done"]
       ELSE [popped EXCEPT !.stk = Append(@, [n |-> n, todo |-> IF a = "skip" THEN <<>> ELSE Visited(n)])]

LeaveNode(w, a) ==
    LET k == Len(w.stk)
        w1 == [w EXCEPT !.stk = SubSeq(@, 1, k - 1)]
    IN IF IsErr(a) THEN [w EXCEPT !.st = "done", !.err = TRUE]
       ELSE IF a = "stop" THEN [w EXCEPT !.st = "done"]
       ELSE IF k = 1 THEN [w1 EXCEPT !.st = "done"] ELSE w1
=============================================================================
