------------------------------- MODULE Shift --------------------------------
(* Trees moved to another place of the source.                                *)
EXTENDS Integers, Sequences

At0(p, k) == IF p < 0 THEN p ELSE p + k

RECURSIVE ShiftNode(_, _)
ShiftNode(n, k) == <<n[1], At0(n[2], k), At0(n[3], k), n[4], n[5], [i \in 1..Len(n[6]) |-> ShiftNode(n[6][i], k)]>>

ShiftDecl(d, k) ==
    LET doc(g) == [i \in 1..Len(g) |-> At0(g[i], k)]
        keys(s) == [i \in 1..Len(s) |-> <<At0(s[i][1], k), s[i][2]>>]
    IN <<d[1], At0(d[2], k), At0(d[3], k), d[4], doc(d[5]), keys(d[6]), keys(d[7]),
         [i \in 1..Len(d[8]) |-> <<At0(d[8][i][1], k), d[8][i][2], d[8][i][3], doc(d[8][i][4]), ShiftNode(d[8][i][5], k)>>],
         [i \in 1..Len(d[9]) |-> ShiftNode(d[9][i], k)]>>

ShiftComments(gs, k) == [i \in 1..Len(gs) |-> [c \in 1..Len(gs[i]) |-> <<gs[i][c][1] + k, gs[i][c][2]>>]]
=============================================================================
