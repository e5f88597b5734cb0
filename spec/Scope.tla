-------------------------------- MODULE Scope --------------------------------
(* Nested scopes.  State: one record [outer, objs] per scope, objs being a    *)
(* function from the names in it to objects.  An object of the pool is        *)
(* <<name, declared by, key, position, kind>>: "bib" (or "bib and extra")     *)
(* with the first cite key key at position; all others are declared by        *)
(* something that has no position for an object.  The kind of an object does  *)
(* not matter.                                                                *)
EXTENDS Integers, Sequences, FiniteSets

NewScope(outer) == [outer |-> outer, objs |-> <<>>]
In(s, name) == name \in DOMAIN s.objs

(* The effect of an operation on the scopes, and its result: an object's      *)
(* number, or 0.                                                              *)
Do(ss, op, pool) ==
    CASE op[1] = "new" -> [ss |-> Append(ss, NewScope(op[2])), res |-> 0]
      [] op[1] = "ins" ->
           LET s == ss[op[2]]
               name == pool[op[3]][1]
           IN IF In(s, name) THEN [ss |-> ss, res |-> s.objs[name]]
              ELSE [ss |-> [ss EXCEPT ![op[2]].objs = [n \in DOMAIN s.objs \cup {name} |->
                                          IF n = name THEN op[3] ELSE s.objs[n]]], res |-> 0]
      [] op[1] = "look" ->
           [ss |-> ss, res |-> IF In(ss[op[2]], op[3]) THEN ss[op[2]].objs[op[3]] ELSE 0]
      [] op[1] = "ren" -> [ss |-> ss, res |-> 0]

(* The name of an object can change; scopes hold it under the name it had.    *)
Rename(pool, op) == IF op[1] = "ren" THEN [pool EXCEPT ![op[2]][1] = op[3]] ELSE pool

Pos(obj) == IF obj[2] \in {"bib", "bib and extra"} /\ obj[3] = obj[1] THEN obj[4] ELSE 0
==============================================================================
