-------------------------------- MODULE TC27 --------------------------------
(* Validation of recorded sessions on the real code. *)
EXTENDS TraceBase, Session
StS == [memo |-> <<>>, inputs |-> <<>>, ver |-> <<>>]
Set(f, k, x) == [y \in DOMAIN f \cup {k} |-> IF y = k THEN x ELSE f[y]]
JudgeC27(o, e) ==
  CASE e.op = "reference" -> Verdict([o EXCEPT !.memo = Remember(@, e.w, e.v, e.q, e.ans), !.ver = Set(@, e.w, "0")], {})
    [] e.op = "given" -> Verdict([o EXCEPT !.inputs = Set(@, <<e.w, e.v>>, e.ans)], {})
    [] e.op = "query" ->
         Verdict([o EXCEPT !.memo = IF Answered(@, e.w, o.ver[e.w], e.q) THEN @ ELSE Remember(@, e.w, o.ver[e.w], e.q, e.ans)],
           C(SCat("same_answer_", e.q), Answered(o.memo, e.w, o.ver[e.w], e.q) => SameAnswer(o.memo[<<e.w, o.ver[e.w], e.q>>], e.ans))
           \cup {SCat("inputs_changed_by_", e.q) : i \in {j \in 1..Len(e.inputs) :
                     LET k == <<e.inputs[j].w, o.ver[e.inputs[j].w]>> IN k \in DOMAIN o.inputs /\ ~SameAnswer(o.inputs[k], e.inputs[j].ans)}})
    [] e.op = "edit" -> Verdict([o EXCEPT !.ver = Set(@, e.w, e.v)], {})
    [] e.op = "held" -> Verdict(o, C(SCat("answer_handed_out_changed_", e.q), SameAnswer(e.before, e.after)))
    [] e.op = "scribble" -> Verdict(o, {}) \* the caller changes an answer it was handed
    [] OTHER -> Verdict(o, {"unknown_event"})
=============================================================================
