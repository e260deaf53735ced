------------------------------ MODULE Demand -------------------------------
(***************************************************************************)
(* Origin-destination demand over the nodes of a city.                     *)
(* State: m, a function  origin -> (destination -> trips),  and the total. *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC

ZeroMatrix(ids) == [o \in ids |-> [d \in ids |-> "0"]]
RowSum(r) == NSumSet(r, DOMAIN r)
MatrixSum(m) == NSumSet([o \in DOMAIN m |-> RowSum(m[o])], DOMAIN m)

(* Edit(o, d, v): the errors an edit may raise ({} = accepted) and its effect *)
EditErrors(m, o, d, v) ==
     (IF NIsNum(v) /\ NLe("0", v) THEN {} ELSE {"TripsValueIsNotValidException"})
\cup (IF o \in DOMAIN m THEN {} ELSE {"OriginIdDoesNotFoundException"})
\cup (IF o \notin DOMAIN m \/ d \in DOMAIN m[o] THEN {} ELSE {"DestinationIdDoesNotFoundException"})
EditEffect(m, o, d, v) == [m EXCEPT ![o] = [@ EXCEPT ![d] = v]]

(* Symmetric parametric demand *)
GenErrors(q) ==
     (IF NIsNum(q.y) THEN IF NLe("0", q.y) THEN {} ELSE {"YOutOfRangeException"} ELSE {"YIsNotValidException"})
\cup (IF NIsNum(q.a) THEN IF NLe("0", q.a) /\ NLe(q.a, "1") THEN {} ELSE {"AOutOfRangeException"} ELSE {"AIsNotValidException"})
\cup (IF NIsNum(q.alpha) THEN IF NLe("0", q.alpha) /\ NLe(q.alpha, "1") THEN {} ELSE {"AlphaOutOfRangeException"} ELSE {"AlphaIsNotValidException"})
\cup (IF NIsNum(q.beta) THEN IF NLe("0", q.beta) /\ NLt(q.beta, "1") THEN {} ELSE {"BetaOutOfRangeException"} ELSE {"BetaIsNotValidException"})
\cup (IF NIsNum(q.alpha) /\ NIsNum(q.beta) /\ NLt("1", NAdd(q.alpha, q.beta)) THEN {"AlphaBetaOutOfRangeException"} ELSE {})

\* trips from node o to node d, both [id, kind, zone], in a city of n zones
Generated(q, n, o, d) ==
  LET yz == NDiv(q.y, NInt(n))
      yp == NMul(q.a, yz)
      ys == NMul(NSub("1", q.a), yz)
      beta == IF n = 1 THEN NSub("1", q.alpha) ELSE q.beta
      rest == NSub(NSub("1", q.alpha), beta)                  \* share of the other subcenters
      renorm(x) == IF n = 1 THEN "1" ELSE NDiv(x, NSub("1", q.beta))
      others == NInt(n - 1)
  IN CASE o.kind = "P" /\ d.kind = "CBD" -> NMul(q.alpha, yp)
       [] o.kind = "P" /\ d.kind = "SC" /\ o.zone = d.zone -> NMul(beta, yp)
       [] o.kind = "P" /\ d.kind = "SC" /\ o.zone # d.zone -> NDiv(NMul(rest, yp), others)
       [] o.kind = "SC" /\ d.kind = "CBD" -> NMul(renorm(q.alpha), ys)
       [] o.kind = "SC" /\ d.kind = "SC" /\ o.zone # d.zone -> NDiv(NMul(renorm(rest), ys), others)
       [] OTHER -> "0"

(* Exchange text: a header line and lines  origin,destination,trips *)
TextProblems(ids, lines) ==
  UNION {LET f == SSplit(lines[i], ",")
         IN IF Len(f) # 3 THEN {"line shape"}
            ELSE (IF ~NIsInt(f[1]) \/ ~NIsInt(f[2]) THEN {"node id"}
                  ELSE IF {ToString(NToInt(STrim(f[1]))), ToString(NToInt(STrim(f[2])))} \subseteq ids THEN {} ELSE {"unknown node"})
            \cup (IF NIsNum(STrim(f[3])) THEN IF NLe("0", STrim(f[3])) THEN {} ELSE {"negative trips"} ELSE {"trips not a number"})
         : i \in 2..Len(lines)}
RECURSIVE ReadLines(_, _, _)
ReadLines(m, lines, i) ==
  IF i > Len(lines) THEN m
  ELSE LET f == SSplit(lines[i], ",")
       IN ReadLines(EditEffect(m, ToString(NToInt(STrim(f[1]))), ToString(NToInt(STrim(f[2]))), STrim(f[3])), lines, i + 1)
DemandFromText(ids, lines) == ReadLines(ZeroMatrix(ids), lines, 2)

(* Square matrix in node order *)
ContentProblems(nodes, rows) ==
  (IF Len(rows) # Len(nodes) THEN {"rows"} ELSE {})
\cup UNION {(IF Len(rows[i]) # Len(nodes) THEN {"columns"} ELSE {})
            \cup (IF \A j \in 1..Len(rows[i]) : NIsNum(rows[i][j]) /\ NLe("0", rows[i][j]) THEN {} ELSE {"value"}) : i \in 1..Len(rows)}
DemandFromContent(nodes, rows) ==
  LET at(id) == CHOOSE i \in 1..Len(nodes) : nodes[i].id = id
      ids == {nodes[i].id : i \in 1..Len(nodes)}
  IN [o \in ids |-> [d \in ids |-> rows[at(o)][at(d)]]]
=============================================================================
