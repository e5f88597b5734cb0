-------------------------------- MODULE Source --------------------------------
(* Where source text comes from.                                              *)
(* 1. A reader: it delivers chunks and then ends, by end of file or failure.  *)
(*    Reading takes everything up to the end; a failure discards it.          *)
(* 2. A package: files are loaded one after another; a file that cannot be    *)
(*    read or parsed leaves its error if it is the first.                     *)
EXTENDS Integers, Sequences, FiniteSets

(* ---- 1: a schedule is <<sizes, end>>, end: "eof", "dataeof" (with the last *)
(* chunk), "fail", "datafail"; got counts the characters delivered.           *)
ReadInit == [i |-> 1, got |-> 0, st |-> "reading"]
ReadStep(r, sched, len) ==
    LET n == Len(sched[1])
        left == len - r.got
        k == IF sched[1][r.i] < left THEN sched[1][r.i] ELSE left
        with == sched[2] \in {"dataeof", "datafail"}
        ended == IF sched[2] \in {"eof", "dataeof"} THEN "text" ELSE "failed"
    IN IF r.i > n THEN [r EXCEPT !.st = ended]
       ELSE [i |-> r.i + 1, got |-> r.got + k, st |-> IF with /\ r.i = n THEN ended ELSE "reading"]
RECURSIVE ReadAll(_, _, _)
ReadAll(r, sched, len) == IF r.st = "reading" THEN ReadAll(ReadStep(r, sched, len), sched, len) ELSE r

(* ---- 2: good[p]: file p can be read and parsed                             *)
LoadInit == [files |-> {}, first |-> 0, i |-> 1]
LoadStep(k, paths, good) ==
    LET p == paths[k.i] IN
    [files |-> IF good[p] THEN k.files \cup {p} ELSE k.files,
     first |-> IF ~good[p] /\ k.first = 0 THEN p ELSE k.first,
     i |-> k.i + 1]
===============================================================================
