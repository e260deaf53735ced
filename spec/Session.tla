------------------------------- MODULE Session ------------------------------
(***************************************************************************)
(* Independence of evaluations.  A session holds several cities with their *)
(* networks ("worlds"), each in one of a few versions of its inputs.       *)
(* Queries evaluate a world; edits switch its inputs between versions.     *)
(* An answer is a function of (world, version, query) alone: not of the    *)
(* queries before it, of other worlds, or of earlier versions; queries     *)
(* leave the inputs of every world, and the answers handed out, unchanged. *)
(***************************************************************************)
EXTENDS Num, FiniteSets
\* memo: <<world, version, query>> -> answer
Answered(memo, w, v, q) == <<w, v, q>> \in DOMAIN memo
Remember(memo, w, v, q, a) == [x \in DOMAIN memo \cup {<<w, v, q>>} |-> IF x = <<w, v, q>> THEN a ELSE memo[x]]
\* an answer carries a fingerprint h and, when it is needed, its values v
SameValue(a, b) == a = b \/ (NIsNum(a) /\ NIsNum(b) /\ NCloseT(a, b, "1e-9"))
SameAnswer(a, b) ==
  \/ a.h = b.h
  \/ /\ "v" \in DOMAIN a /\ "v" \in DOMAIN b
     /\ DOMAIN a.v = DOMAIN b.v
     /\ \A k \in DOMAIN a.v : SameValue(a.v[k], b.v[k])
=============================================================================
