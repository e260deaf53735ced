------------------------------- MODULE TModes ------------------------------
(* Validation of recorded mode registries and of parameter domains.        *)
EXTENDS TraceBase, Modes, City

St == [reg |-> <<>>]

Entry(r) == [name |-> r.name, tag |-> r.tag]
Entries(q) == [i \in 1..Len(q) |-> Entry(q[i])]
RegOK(e, reg) == C("registry", Entries(e.reg) = Entries(reg)) \cup C("names", e.names = [i \in 1..Len(reg) |-> reg[i].name])

JudgeC08(s0, e) ==
  LET step(er, reg1, extra) ==
        LET r == IF er = {} THEN reg1 ELSE s0.reg
        IN Verdict([reg |-> r], C(e.op \o "_outcome", IF er = {} THEN e.outcome = "ok" ELSE e.outcome \in er)
                                \cup RegOK(e, r) \cup (IF er = {} THEN extra ELSE {}))
  IN CASE e.op = "new" -> LET r == e.expect IN Verdict([reg |-> r], RegOK(e, r))
       [] e.op = "add" -> step(AddErrors(s0.reg, e.name), AddEffect(s0.reg, e.name, e.tag, e.d), {})
       [] e.op = "remove" -> step(RemoveErrors(s0.reg, e.name), RemoveEffect(s0.reg, e.name), {})
       [] e.op = "get" -> step(GetErrors(s0.reg, e.name), s0.reg,
                               IF e.name \in Names(s0.reg) THEN C("lookup", e.tag = Lookup(s0.reg, e.name).tag) ELSE {})
       [] e.op = "usable" -> step(IF Usable(s0.reg) THEN {} ELSE {"TransportNetworkException"}, s0.reg, C("usable_answer", e.ans))
       [] e.op = "addbad" -> step({"ModeIsNotValidException"}, s0.reg, {})
       [] OTHER -> Verdict(s0, {})

(*------------------------------ C04: domains -----------------------------*)
IsNumOrNone(v) == NIsNum(v) \/ v = "None"
Outcome(er, wild, e) == \* wild: some value is not even a number, any error will do
  IF er = {} THEN C("valid_rejected", e.outcome = "ok")
  ELSE IF e.outcome = "ok" THEN {"invalid_accepted"} ELSE C("documented_error", wild \/ e.outcome \in er)
SameVal(a, b) == a = b \/ (NIsNum(a) /\ NIsNum(b) /\ NClose(a, b))

NodeErrors(q) ==
     (IF q.name = "None" THEN {"NameIsNotDefinedException"} ELSE {})
\cup (IF q.id = "None" THEN {"NodeIdIsNotValidException"} ELSE {})
\cup (IF q.zone = "None" \/ (q.kind = "CBD" /\ q.zone # "0") THEN {"ZoneIdIsNotValidException"} ELSE {})
\cup (IF NonNeg(q.radius) THEN {} ELSE {"NodeRadiusIsNotValidException"})
\cup (IF Between(q.angle, "0", "360") THEN {} ELSE {"NodeAngleIsNotValidException"})
\cup (IF NonNeg(q.width) THEN {} ELSE {"NodeWidthIsNotValidException"})
ZoneErrors(q) ==
     (IF q.zone = "None" \/ NLe(q.zone, "0") THEN {"ZoneIdIsNotValidException"} ELSE {})
\cup (IF q.k1 = "P" THEN {} ELSE {"PeripheryNodeTypeIsNotValidException"})
\cup (IF q.k2 = "SC" THEN {} ELSE {"SubcenterNodeTypeIsNotValidException"})
\cup (IF q.z1 = q.zone /\ q.z2 = q.zone THEN {} ELSE {"ZoneIdIsNotValidException"})
EdgeErrors(q) ==
     (IF q.id = "None" THEN {"EdgeIdIsNotValidException"} ELSE {})
\cup (IF {q.k1, q.k2} = {"P"} \/ {q.k1, q.k2} = {"P", "CBD"} THEN {"EdgeIsNotAvailableException"} ELSE {})

NonNumericCity(q) ==
  \/ \E k \in {"n", "l", "g", "p"} : ~NIsNum(q[k])
  \/ \E k \in {"etha", "ethaZone"} : ~IsNumOrNone(q[k])
  \/ \E k \in {"angles", "Gi", "Hi"} : q[k] # <<"None">> /\ \E i \in 1..Len(q[k]) : ~NIsNum(q[k][i])

JudgeC04(s0, e) ==
  CASE e.op = "mode" ->
         LET er == ModeErrors(e.q)
             wild == \E k \in ModeAttrs \ {"name"} : ~IsNumOrNone(e.q[k])
         IN Verdict(s0, Outcome(er, wild, e)
              \cup (IF er # {} \/ e.outcome # "ok" THEN {} ELSE
                    C("reported_values", \A k \in ModeAttrs : SameVal(e.r[k], ModeReports(e.q)[k]))))
    [] e.op = "set" ->   \* attribute assignment on an existing mode or passenger: e.before, e.after
         LET ok == IF e.what = "mode" THEN ModeAttrOK(e.k, e.v) ELSE PassengerAttrOK(e.k, e.v)
             er == IF ok THEN {} ELSE {IF e.what = "mode" THEN ModeErrorOf[e.k] ELSE PassengerErrorOf[e.k]}
         IN Verdict(s0, Outcome(er, ~IsNumOrNone(e.v), e)
              \cup C("assignment_effect", \A k \in DOMAIN e.before : SameVal(e.after[k], IF ok /\ k = e.k THEN e.v ELSE e.before[k])))
    [] e.op = "passenger" ->
         LET er == PassengerErrors(e.q)
         IN Verdict(s0, Outcome(er, \E k \in PassengerAttrs : ~IsNumOrNone(e.q[k]), e)
              \cup (IF er # {} \/ e.outcome # "ok" THEN {} ELSE C("reported_values", \A k \in PassengerAttrs : SameVal(e.r[k], e.q[k]))))
    [] e.op = "city" ->
         LET q == WithDefaults(e.q)
             er == ParamErrors(q)
         IN Verdict(s0, Outcome(er, NonNumericCity(q), e)
              \cup (IF er # {} \/ e.outcome # "ok" THEN {} ELSE
                    C("reported_values", \A k \in {"n", "l", "g", "p", "etha", "ethaZone"} : SameVal(e.r[k], q[k]))
                    \cup C("reported_vectors", \A k \in {"angles", "Gi", "Hi"} : Len(e.r[k]) = Len(q[k]) /\ \A i \in 1..Len(q[k]) : SameVal(e.r[k][i], q[k][i])))
              \cup C("validator_agrees", (\E k \in {"n", "l", "g", "p"} : e.q[k] = "omitted") \/ e.validator = e.outcome))
    [] e.op = "defaults" ->
         Verdict(s0, C("default_modes", Len(e.modes) = Len(DefaultModes) /\ \A i \in 1..Len(e.modes) : \A k \in ModeAttrs : SameVal(e.modes[i][k], ModeReports(DefaultModes[i])[k]))
                \cup C("default_passenger", \A k \in PassengerAttrs : SameVal(e.pax[k], DefaultPassenger[k])))
    [] e.op = "node" -> Verdict(s0, Outcome(NodeErrors(e.q), FALSE, e)
              \cup (IF e.outcome # "ok" THEN {} ELSE C("reported_values", \A k \in {"id", "name", "x", "y", "radius", "angle", "width", "zone"} : SameVal(e.r[k], e.q[k]))))
    [] e.op = "zone" -> Verdict(s0, Outcome(ZoneErrors(e.q), FALSE, e))
    [] e.op = "edge" -> Verdict(s0, Outcome(EdgeErrors(e.q), FALSE, e))
    [] OTHER -> Verdict(s0, {})
=============================================================================
