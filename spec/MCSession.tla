------------------------------ MODULE MCSession -------------------------------
(* Every interleaving of the clients' turns; checks isolation on a model in   *)
(* which a call reads its instance and text bit by bit, and prints the        *)
(* schedules for the replay into the code.                                    *)
EXTENDS Session, TLC, Json, IOUtils
Clients == atoi(IOEnv.CLIENTS)
Turns == atoi(IOEnv.TURNS)           \* turns of each client
Insts == 1..2
VARIABLES cfg, view, h, inst
vars == <<cfg, view, h, inst>>
(* cfg[c]: the instance client c uses; view[c]: what its call has seen so far *)
Init == /\ cfg \in [1..Clients -> Insts]
        /\ view = [c \in 1..Clients |-> <<>>]
        /\ h = <<>>
        /\ inst = [i \in Insts |-> i]
Turn(c) == /\ Len(view[c]) < Turns
           /\ view' = [view EXCEPT ![c] = Append(@, inst[cfg[c]])]
           /\ h' = Append(h, c)
           /\ (Len(h') = Clients * Turns /\ \A d \in 1..Clients : cfg[d] = 1) => PrintT("TURNS " \o ToJson(h'))
           /\ UNCHANGED <<cfg, inst>>
Next == \E c \in 1..Clients : Turn(c)
Spec == Init /\ [][Next]_vars
Isolated == \A c \in 1..Clients : \A k \in 1..Len(view[c]) : view[c][k] = cfg[c]
Constant == [][inst' = inst]_vars
===============================================================================
