------------------------------ MODULE TDemand ------------------------------
(* Validation of recorded demand sessions.                                 *)
EXTENDS TraceBase, Demand

St == [ids |-> {}, nodes |-> <<>>, n |-> 0, m |-> [x \in {} |-> "0"], big |-> "0"]

Ids(nodes) == {nodes[i].id : i \in 1..Len(nodes)}
SameMatrix(ids, a, b) ==     \* a recorded, b specified
  /\ DOMAIN a = ids
  /\ \A o \in ids : DOMAIN a[o] = ids /\ \A d \in ids : NClose(a[o][d], b[o][d])
TotalOK(total, m, big) == \* the recorded running total, up to cancellation noise relative to the largest amount seen
  LET w == MatrixSum(m) IN NIsNum(total) /\ (NClose(total, w) \/ NLe(NSub(NMax(total, w), NMin(total, w)), NMul("1e-12", NMul("1000", big))))
Biggest(m) == NMaxSet([o \in DOMAIN m |-> RowSum(m[o])], DOMAIN m)

State(s0, e, m) == [ids |-> s0.ids, nodes |-> s0.nodes, n |-> s0.n, m |-> m, big |-> NMax(s0.big, Biggest(m))]
Shown(s0, e, m, pre) == C(pre \o "_matrix", SameMatrix(s0.ids, e.m, m)) \cup C(pre \o "_total", TotalOK(e.total, m, NMax(s0.big, Biggest(m))))

New(e) == [ids |-> Ids(e.nodes), nodes |-> e.nodes, n |-> e.n, m |-> ZeroMatrix(Ids(e.nodes)), big |-> "0"]

JudgeC05(s0, e) ==
  CASE e.op = "new" -> LET s1 == New(e) IN Verdict(s1, Shown(s1, e, s1.m, "new"))
    [] e.op = "edit" ->
         LET er == EditErrors(s0.m, e.o, e.d, e.v)
             m1 == IF er = {} THEN TLCEval(EditEffect(s0.m, e.o, e.d, e.v)) ELSE s0.m
         IN Verdict(State(s0, e, m1),
              C("edit_outcome", IF er = {} THEN e.outcome = "ok" ELSE e.outcome \in er)
              \cup Shown(s0, e, m1, IF er = {} THEN "edit" ELSE "rejected_edit"))
    [] e.op = "load" -> Verdict(State(s0, e, e.m), C("loaded_total", TotalOK(e.total, e.m, Biggest(e.m))) \cup C("loaded_shape", DOMAIN e.m = s0.ids))
    [] OTHER -> Verdict(s0, {})

JudgeC06(s0, e) ==
  CASE e.op = "new" -> Verdict(New(e), {})
    [] e.op = "generate" ->
         LET er == GenErrors(e.q)
             rec(id) == s0.nodes[CHOOSE i \in 1..Len(s0.nodes) : s0.nodes[i].id = id]
         IN Verdict(s0,
              IF er # {} THEN C("invalid_parameters", e.outcome \in er)
              ELSE IF e.outcome # "ok" THEN {"valid_parameters_rejected"}
              ELSE C("matrix_shape", DOMAIN e.m = s0.ids /\ \A o \in DOMAIN e.m : DOMAIN e.m[o] = s0.ids)
              \cup (IF s0.n = 0 THEN {} ELSE
                    C("cell_shares", \A o \in s0.ids, d \in s0.ids : NClose(e.m[o][d], Generated(e.q, s0.n, rec(o), rec(d))))
               \cup C("no_trips_from_cbd", \A o, d \in s0.ids : rec(o).kind = "CBD" => NEq(e.m[o][d], "0"))
               \cup C("no_trips_to_periphery", \A o, d \in s0.ids : rec(d).kind = "P" => NEq(e.m[o][d], "0"))
               \cup C("non_negative", \A o, d \in s0.ids : NLe("0", e.m[o][d]))
               \cup C("sum_is_y", NClose(MatrixSum(e.m), e.q.y))
               \cup C("total_is_y", NClose(e.total, e.q.y))))
    [] OTHER -> Verdict(s0, {})

JudgeC07(s0, e) ==
  CASE e.op = "new" -> Verdict(New(e), {})
    [] e.op = "load" -> Verdict(State(s0, e, e.m), {})          \* the matrix at hand (judged by C05)
    [] e.op = "save" ->
         Verdict(s0, IF e.outcome # "ok" THEN {"save_failed"}
              ELSE IF TextProblems(s0.ids, e.lines) # {} THEN {"saved_text_malformed"}
              ELSE C("save_complete", SameMatrix(s0.ids, DemandFromText(s0.ids, e.lines), s0.m))
              \cup C("save_each_pair_once", Len(e.lines) = 1 + Cardinality(s0.ids) * Cardinality(s0.ids))
              \cup C("save_keeps_demand", SameMatrix(s0.ids, e.m, s0.m)))
    [] e.op = "reload" ->     \* read back the saved file
         Verdict(s0, IF e.outcome # "ok" THEN {"reload_rejected"}
              ELSE C("reload_matrix", DOMAIN e.m = s0.ids /\ \A o \in s0.ids : DOMAIN e.m[o] = s0.ids /\ \A d \in s0.ids : NEq(e.m[o][d], s0.m[o][d]))
              \cup C("reload_total", TotalOK(e.total, s0.m, s0.big)))
    [] e.op = "read" ->
         LET pr == TextProblems(s0.ids, e.lines)
         IN Verdict(s0, IF pr # {} THEN C("malformed_file_accepted", e.outcome # "ok")
              ELSE IF e.outcome # "ok" THEN {"wellformed_file_rejected"}
              ELSE LET m == TLCEval(DemandFromText(s0.ids, e.lines))
                   IN C("file_matrix", SameMatrix(s0.ids, e.m, m)) \cup C("file_total", TotalOK(e.total, m, e.big)))
    [] e.op = "content" ->
         LET pr == ContentProblems(s0.nodes, e.rows)
         IN Verdict(s0, IF pr # {} THEN C("malformed_content_accepted", e.outcome # "ok")
              ELSE IF e.outcome # "ok" THEN {"wellformed_content_rejected"}
              ELSE LET m == TLCEval(DemandFromContent(s0.nodes, e.rows))
                   IN C("content_matrix", SameMatrix(s0.ids, e.m, m)) \cup C("content_total", TotalOK(e.total, m, "0")))
    [] OTHER -> Verdict(s0, {})
=============================================================================
