------------------------------- MODULE Session --------------------------------
(* Several clients make calls, in turns.  A call belongs to an instance and   *)
(* has a text; while it runs it gives way at gates (a read, a resolver, a     *)
(* write).  What it returns is a function of the call alone: nothing that     *)
(* happened before or meanwhile is in it.  Instances never change.            *)
(*   ret[c]: results client c has had, so its next call is number Len+1       *)
EXTENDS Integers, Sequences, FiniteSets

Begin(n) == [ret |-> [c \in 1..n |-> <<>>], turn |-> 1]
Finished(s, progs, c) == Len(s.ret[c]) = Len(progs[c])
Calls(s, progs, c) == progs[c][Len(s.ret[c]) + 1]

(* whose turn it is: as scheduled, and then one after another                 *)
RECURSIVE Skip(_, _, _)
Skip(s, progs, sched) ==
    IF s.turn <= Len(sched) /\ Finished(s, progs, sched[s.turn])
    THEN Skip([s EXCEPT !.turn = @ + 1], progs, sched) ELSE s
Next1(s, progs, sched) ==
    LET t == Skip(s, progs, sched) IN
    IF t.turn <= Len(sched) THEN sched[t.turn]
    ELSE CHOOSE c \in 1..Len(progs) : ~Finished(s, progs, c) /\ \A d \in 1..(c - 1) : Finished(s, progs, d)
Over(s, progs) == \A c \in 1..Len(progs) : Finished(s, progs, c)

Gate(s, progs, sched) == [Skip(s, progs, sched) EXCEPT !.turn = @ + 1]
Return(s, progs, sched, c, value) == [Skip(s, progs, sched) EXCEPT !.turn = @ + 1, !.ret[c] = Append(@, value)]
===============================================================================
