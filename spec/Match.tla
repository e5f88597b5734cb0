------------------------------- MODULE Match -------------------------------
(* How an observation of the real parser is compared with a final state of   *)
(* the machine, one projection per property.                                 *)
EXTENDS Parser

RECURSIVE Strip(_)               \* a value without positions
Strip(n) == <<n[1], n[4], n[5], [i \in 1..Len(n[6]) |-> Strip(n[6][i])]>>

RECURSIVE Where(_)               \* the positions of a value
Where(n) == <<n[2], n[3], IF n[1] = "Macro" THEN <<>>
                          ELSE [i \in 1..Len(n[6]) |-> Where(n[6][i])]>>

RECURSIVE HasKind(_, _)
HasKind(n, ks) == n[1] \in ks \/ \E i \in 1..Len(n[6]) : HasKind(n[6][i], ks)

Map(Op(_), s) == [i \in 1..Len(s) |-> Op(s[i])]

DeclShape(d) ==                  \* C03: everything but values, docs, positions
    LET key(k) == k[2]
        tag(t) == <<t[2], t[3]>>
    IN <<d[1], d[4], Map(key, d[6]), Map(key, d[7]), Map(tag, d[8]), Len(d[9])>>
DeclValues(d) ==                 \* C04, C05
    LET val(t) == Strip(t[5]) IN <<Map(val, d[8]), Map(Strip, d[9])>>
DeclDocs(d) ==                   \* C08
    LET doc(t) == t[4] IN <<d[5], Map(doc, d[8])>>
DeclWhere(d) ==                  \* C09
    LET key(k) == k[1]
        tag(t) == <<t[1], Where(t[5])>>
    IN <<d[2], d[3], Map(key, d[6]), Map(key, d[7]), Map(tag, d[8]), Map(Where, d[9])>>

Shapes(ds) == Map(DeclShape, ds)
Values(ds) == Map(DeclValues, ds)
Docs(ds) == Map(DeclDocs, ds)
Wheres(ds) == Map(DeclWhere, ds)

BadKinds == {"nil", "BadExpr", "BadStmt", "BadDecl"}
DeclBad(d) == \/ d[1] \in BadKinds
              \/ \E i \in 1..Len(d[8]) : HasKind(d[8][i][5], BadKinds)
              \/ \E i \in 1..Len(d[9]) : HasKind(d[9][i], BadKinds)
              \/ d[1] = "Abbrev" /\ Len(d[8]) # 1
              \/ d[1] = "Preamble" /\ Len(d[9]) # 1

RECURSIVE ColumnAt(_, _)         \* 1-based byte column of offset o
ColumnAt(src, o) == IF o = 0 \/ src[o] = 10 THEN 1
                    ELSE IF o >= Stretch /\ \A i \in (o - Stretch + 1)..o : src[i] # 10 /\ src[i] \in 0..127
                    THEN ColumnAt(src, o - Stretch) + Stretch
                    ELSE ColumnAt(src, o - 1) + Width(src[o])
LineColumn(src, x) ==
    x[1] >= 0 /\ x[1] <= Len(src) =>
        /\ x[2] = 1 + Newlines(src, 0, x[1])
        /\ x[3] = ColumnAt(src, x[1])
        /\ x[4] = 1

Sorted(errs) == \A i \in 1..(Len(errs) - 1) : errs[i][1] <= errs[i + 1][1]

(* The verdict on one parsed file: the properties its observation breaks.    *)
FileVerdict(r, m) ==
    LET wf == m.st = "ok" /\ ~m.odd          \* certainly well-formed
        bad == m.st = "rej" /\ ~m.odd        \* certainly malformed
        acc == r.ok = 1
        V == IF r.ps = 1 THEN "C05" ELSE "C04"
        n == Len(m.decls)
    IN (IF wf /\ (~acc \/ Shapes(r.decls) # Shapes(m.decls)) THEN {"C03"} ELSE {})
       \cup (IF wf /\ (~acc \/ (Shapes(r.decls) = Shapes(m.decls)
                                 /\ Values(r.decls) # Values(m.decls))) THEN {V} ELSE {})
       \cup (IF wf /\ (~acc \/ r.coms # m.coms \/ (n > 0 /\ r.fdoc # m.fdoc)
                        \/ (Shapes(r.decls) = Shapes(m.decls) /\ Docs(r.decls) # Docs(m.decls)))
             THEN {"C08"} ELSE {})
       \cup (IF wf /\ acc /\ Shapes(r.decls) = Shapes(m.decls) /\ Values(r.decls) = Values(m.decls)
                /\ (Wheres(r.decls) # Wheres(m.decls)
                    \/ \E i \in 1..Len(r.lc) : ~LineColumn(r.src, r.lc[i]))
             THEN {"C09"} ELSE {})
       \cup (IF \/ bad /\ acc
                \/ ~acc /\ (r.ekind # "list" \/ r.errs = <<>> \/ ~Sorted(r.errs))
                \/ acc /\ (r.nils > 0 \/ \E i \in 1..Len(r.decls) : DeclBad(r.decls[i]))
             THEN {"C06"} ELSE {})
       \cup (IF bad /\ ~acc
                /\ \/ Len(r.decls) < n
                   \/ SubSeq(r.decls, 1, Min2(n, Len(r.decls))) # m.decls
                   \/ (r.errs # <<>> /\ r.errs[1][1] < m.endl)
                   \/ r.nils > 0
             THEN {"C07"} ELSE {})
       \cup (IF r.nofile = 1 \/ r.name = 0 \/ r.errname = 0 THEN {"C17"} ELSE {})
       \cup (IF Len(r.errs) > 4 * Len(r.src) + 16 THEN {"C01"} ELSE {})

(* A standalone expression. *)
ExprVerdict(r, m) ==
    LET wf == m.st = "ok" /\ ~m.odd
        bad == m.st = "rej" /\ ~m.odd
        acc == r.ok = 1
    IN (IF wf /\ (~acc \/ Strip(r.tree) # Strip(m.val[1])) THEN {"C05"} ELSE {})
       \cup (IF wf /\ acc /\ Strip(r.tree) = Strip(m.val[1]) /\ Where(r.tree) # Where(m.val[1])
             THEN {"C09"} ELSE {})
       \cup (IF \/ bad /\ acc
                \/ ~acc /\ (r.ekind # "list" \/ r.errs = <<>> \/ ~Sorted(r.errs) \/ r.tree[1] # "nil")
                \/ acc /\ HasKind(r.tree, BadKinds)
             THEN {"C06"} ELSE {})
       \cup (IF Len(r.errs) > 4 * Len(r.src) + 16 THEN {"C01"} ELSE {})
============================================================================
