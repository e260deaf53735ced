------------------------------ MODULE MSession ------------------------------
(* Sessions over two worlds: every ordered pair of operations, in every     *)
(* combination of versions of the inputs.                                   *)
EXTENDS Session, TLC, Json
Worlds == {"a", "b"}
Owned == {"distances", "families", "extended", "strategies", "loads", "reports", "overall", "optimise"}
Queries == Owned \cup {"city", "demand", "routes", "files", "links", "validate", "costs", "constraints", "objective"}
VARIABLES ver, last, memo
\* an abstract evaluation: any function of world, version and query
Eval(w, v, q) == <<w, v, q>>
Init == ver = [w \in Worlds |-> 0] /\ last = <<"", "", "">> /\ memo = [x \in {} |-> <<>>]
Query(w, q) == /\ Answered(memo, w, ver[w], q) => memo[<<w, ver[w], q>>] = Eval(w, ver[w], q)
               /\ memo' = Remember(memo, w, ver[w], q, Eval(w, ver[w], q))
               /\ last' = <<w, q, "query">> /\ UNCHANGED ver
Edit(w) == /\ ver' = [ver EXCEPT ![w] = 1 - @] /\ last' = <<w, "", "edit">> /\ UNCHANGED memo
\* the caller changes the answer it was just handed: answers belong to the caller
Scribble(w, q) == /\ last = <<w, q, "query">> /\ q \in Owned
                  /\ last' = <<w, q, "scribble">> /\ UNCHANGED <<ver, memo>>
Next == \E w \in Worlds : Edit(w) \/ \E q \in Queries : (Query(w, q) \/ Scribble(w, q))
View == <<ver, last>>
OneAnswer == \A x \in DOMAIN memo : memo[x] = Eval(x[1], x[2], x[3])
Emit == PrintT("@T " \o ToJson([s |-> View, a |-> [w |-> last'[1], q |-> last'[2], k |-> last'[3]], t |-> View']))
=============================================================================
