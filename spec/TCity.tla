------------------------------- MODULE TCity -------------------------------
(* Validation of recorded city constructions, queries and exchanges.       *)
EXTENDS TraceBase, City

St == [city |-> [nodes |-> <<>>, zones |-> <<>>, edges |-> {}], q |-> <<>>]

EdgeSet(r) == {<<r.edges[i].a, r.edges[i].b>> : i \in 1..Len(r.edges)}
Look(r, id) == r.nodes[CHOOSE i \in 1..Len(r.nodes) : r.nodes[i].id = id]

(* the recorded city r against the specified city c: what exists *)
Structure(c, r) ==
     C("cbd_first_and_unique", Cardinality({i \in 1..Len(r.nodes) : r.nodes[i].kind = "CBD"}) = 1)
\cup C("node_count", Len(r.nodes) = Len(c.nodes))
\cup C("node_ids_unique", NoDup([i \in 1..Len(r.nodes) |-> r.nodes[i].id]))
\cup C("node_names_unique", NoDup([i \in 1..Len(r.nodes) |-> r.nodes[i].name]))
\cup C("node_identity", {<<r.nodes[i].id, r.nodes[i].name, r.nodes[i].kind, r.nodes[i].zone>> : i \in 1..Len(r.nodes)}
                      = {<<c.nodes[i].id, c.nodes[i].name, c.nodes[i].kind, c.nodes[i].zone>> : i \in 1..Len(c.nodes)})
\cup C("zones", [k \in 1..Len(r.zones) |-> [id |-> r.zones[k].id, p |-> r.zones[k].p, sc |-> r.zones[k].sc]] = c.zones)
\cup C("links", EdgeSet(r) = c.edges)
\cup C("links_once", Len(r.edges) = Cardinality(c.edges) /\ Len(r.edges) = LinkCount(Len(c.zones)))
\cup C("link_ids_unique", NoDup([i \in 1..Len(r.edges) |-> r.edges[i].id]))
\cup C("n_reported", NEq(r.n, NInt(Len(c.zones))))
\cup C("cbd_query", r.cbd = c.nodes[1].id)

Exists(c, r) ==   \* r.exist: sequence of [a, b, ans]
     C("edge_exist", \A i \in 1..Len(r.exist) :
          r.exist[i].ans = (<<r.exist[i].a, r.exist[i].b>> \in c.edges))

Geometry(c, r, withAngle) ==
     C("all_nodes_present", {r.nodes[i].id : i \in 1..Len(r.nodes)} = NodeIds(c))
\cup (IF {r.nodes[i].id : i \in 1..Len(r.nodes)} # NodeIds(c) THEN {} ELSE
     LET same(P(_, _)) == \A i \in 1..Len(r.nodes) : P(r.nodes[i], NodeById(c, r.nodes[i].id)) IN
     C("position", same(LAMBDA a, b : NClose(a.x, b.x) /\ NClose(a.y, b.y)))
\cup C("radius", same(LAMBDA a, b : NClose(a.radius, b.radius)))
\cup C("width", same(LAMBDA a, b : NClose(a.width, b.width)))
\cup C("angle", same(LAMBDA a, b : IF withAngle THEN NClose(a.angle, b.angle) ELSE DirectionOK(b.x, b.y, a.angle)))
\cup C("zone_nodes_are_the_nodes", \A k \in 1..Len(r.zones) :
          /\ r.zones[k].p \in NodeIds(c) /\ r.zones[k].sc \in NodeIds(c)
          /\ SamePlace(r.zones[k].pn, NodeById(c, r.zones[k].p)) /\ SamePlace(r.zones[k].scn, NodeById(c, r.zones[k].sc)))
\cup C("link_ends_are_the_nodes", \A i \in 1..Len(r.edges) :
          /\ r.edges[i].a \in NodeIds(c) /\ r.edges[i].b \in NodeIds(c)
          /\ SamePlace(r.edges[i].an, NodeById(c, r.edges[i].a)) /\ SamePlace(r.edges[i].bn, NodeById(c, r.edges[i].b)))
\cup C("distances_for_every_link", {<<r.dist[i].a, r.dist[i].b>> : i \in 1..Len(r.dist)} = c.edges)
\cup C("distance", \A i \in 1..Len(r.dist) :
          /\ r.dist[i].a \in NodeIds(c) /\ r.dist[i].b \in NodeIds(c)
          /\ NClose(r.dist[i].d, DistIds(c, r.dist[i].a, r.dist[i].b)))
\cup C("distance_symmetric", \A i, j \in 1..Len(r.dist) :
          (r.dist[i].a = r.dist[j].b /\ r.dist[i].b = r.dist[j].a) => NEq(r.dist[i].d, r.dist[j].d)))

SameList(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : a[i] = b[i] \/ (NIsNum(a[i]) /\ NIsNum(b[i]) /\ NClose(a[i], b[i]))
Same(a, b) == a = b \/ (NIsNum(a) /\ NIsNum(b) /\ NClose(a, b))
ParamsBack(q, r) ==
     C("parameters_back", Same(q.n, r.n) /\ Same(q.l, r.l) /\ Same(q.g, r.g) /\ Same(q.p, r.p) /\ Same(q.etha, r.etha)
          /\ Same(q.ethaZone, r.ethaZone) /\ SameList(q.angles, r.angles) /\ SameList(q.Gi, r.Gi) /\ SameList(q.Hi, r.Hi))

NonNumeric(q) ==
  \/ \E k \in {"n", "l", "g", "p"} : ~NIsNum(q[k])
  \/ \E k \in {"etha", "ethaZone"} : ~NIsNum(q[k]) /\ q[k] # "None"
  \/ \E k \in {"angles", "Gi", "Hi"} : q[k] # <<"None">> /\ \E i \in 1..Len(q[k]) : ~NIsNum(q[k][i])

(*----------------------------- C01 and C02 -------------------------------*)
JudgeC01(s0, e) ==
  CASE e.op = "build" ->
         IF ParamErrors(e.q) # {} THEN Verdict(s0, C("invalid_parameters_accepted", e.outcome # "ok"))
         ELSE LET c == TLCEval(CityFromParameters(e.q))
              IN Verdict([city |-> c, q |-> e.q],
                   IF e.outcome # "ok" THEN {"valid_city_rejected"} ELSE Structure(c, e.r) \cup Exists(c, e.r))
    [] e.op = "unchanged" -> Verdict(s0, Structure(s0.city, e.r))
    [] OTHER -> Verdict(s0, {})

JudgeC02(s0, e) ==
  CASE e.op = "build" ->
         IF ParamErrors(e.q) # {} THEN Verdict(s0, {})
         ELSE LET c == TLCEval(CityFromParameters(e.q))
              IN Verdict([city |-> c, q |-> e.q],
                   IF e.outcome # "ok" THEN {"valid_city_rejected"}
                   ELSE Geometry(c, e.r, TRUE) \cup ParamsBack(e.q, e.r.params))
    [] e.op = "xy" -> Verdict(s0, C("xy_of_polar", e.outcome = "ok" /\ NClose(e.x, X(e.radius, e.angle))
                                                /\ NClose(e.y, Y(e.radius, e.angle))))
    [] e.op = "angle" -> Verdict(s0, C("direction", e.outcome = "ok" /\ DirectionOK(e.x, e.y, e.ans)))
    [] OTHER -> Verdict(s0, {})

(*--------------------------------- C03 -----------------------------------*)
SameNode(a, b) == /\ a.id = b.id /\ a.name = b.name /\ a.kind = b.kind /\ a.zone = b.zone
                  /\ NEq(a.x, b.x) /\ NEq(a.y, b.y) /\ NEq(a.width, b.width)
                  /\ NClose(a.radius, b.radius)

\* the parameters reported by a city read from text build that same city again
Described(c, re) ==
  /\ re.outcome = "ok" /\ Len(re.nodes) = Len(c.nodes)
  /\ \A i \in 1..Len(c.nodes) :
       LET m == c.nodes[i] IN
       (m.kind = "CBD" /\ ~CbdExpressible(c)) \/
       \E j \in 1..Len(re.nodes) : LET w == re.nodes[j] IN
          /\ w.kind = m.kind /\ NEq(NInt(w.zone), NInt(m.zone))
          /\ NCloseT(w.x, m.x, "1e-3") /\ NCloseT(w.y, m.y, "1e-3")
          /\ (OneWidth(c) => NClose(w.width, m.width))

ImportClauses(lines, e) ==
  LET pr == PajekProblems(lines)
  IN IF pr # {} THEN C("malformed_text_accepted", e.outcome # "ok")
     ELSE LET c == TLCEval(CityFromPajek(lines))
          IN IF PajekWrong(c) # {} THEN C("wrong_geometry_accepted", e.outcome # "ok")
             ELSE IF e.outcome # "ok" THEN C("wellformed_text_rejected", PajekOpen(c))
             ELSE Structure(c, e.r)
             \cup C("node_order", [i \in 1..Len(e.r.nodes) |-> e.r.nodes[i].id] = [i \in 1..Len(c.nodes) |-> c.nodes[i].id])
             \cup (IF PajekOpen(c) THEN {} ELSE Geometry(c, e.r, FALSE))
             \cup (IF PajekOpen(c) \/ Len(c.zones) = 0 THEN {} ELSE
                   LET w == ParametersOf(c)
                   IN C("parameters_read", NClose(w.l, e.r.params.l) /\ NClose(w.g, e.r.params.g)
                                        /\ SameList(w.Gi, e.r.params.Gi) /\ SameList(w.Hi, e.r.params.Hi))
                      \cup C("width_read", OneWidth(c) => NClose(c.nodes[1].width, e.r.params.p))
                      \cup (IF ~Regular(c) THEN {} ELSE C("parameters_describe_city", Described(c, e.re))))

JudgeC03(s0, e) ==
  CASE e.op = "build" ->          \* the exporting city (checked by C01/C02): the recorded one is the reference
         Verdict([city |-> e.r, q |-> <<>>], {})
    [] e.op = "export" ->         \* the text describes the recorded city
         LET pr == PajekProblems(e.lines)
         IN Verdict(s0,
              IF e.outcome # "ok" THEN {"export_failed"}
              ELSE IF pr # {} THEN {"exported_text_malformed"}
              ELSE LET c == TLCEval(CityFromPajek(e.lines))
                   IN C("export_complete", Len(c.nodes) = Len(s0.city.nodes)
                        /\ \A i \in 1..Len(c.nodes) : \E j \in 1..Len(s0.city.nodes) : SameNode(c.nodes[i], s0.city.nodes[j]))
                 \cup C("text_and_file_alike", e.lines = e.fileLines))
    [] e.op = "import" -> Verdict(s0, ImportClauses(e.lines, e) \cup C("file_and_text_alike", e.same))
    [] e.op = "roundtrip" ->      \* import of the exported text, possibly reordered, against the original city
         Verdict(s0, IF e.outcome # "ok" THEN C("roundtrip_rejected", LET c == TLCEval(CityFromPajek(e.lines)) IN PajekOpen(c) \/ PajekWrong(c) # {})
              ELSE C("roundtrip_nodes", Len(e.r.nodes) = Len(s0.city.nodes)
                      /\ \A i \in 1..Len(e.r.nodes) : \E j \in 1..Len(s0.city.nodes) : SameNode(e.r.nodes[i], s0.city.nodes[j]))
              \cup C("roundtrip_links", EdgeSet(e.r) = EdgeSet(s0.city) /\ Len(e.r.edges) = Len(s0.city.edges))
              \cup C("roundtrip_zones", [k \in 1..Len(e.r.zones) |-> <<e.r.zones[k].id, e.r.zones[k].p, e.r.zones[k].sc>>]
                                      = [k \in 1..Len(s0.city.zones) |-> <<s0.city.zones[k].id, s0.city.zones[k].p, s0.city.zones[k].sc>>])
              \cup ImportClauses(e.lines, e)
              \cup C("file_and_text_alike", e.same))
    [] OTHER -> Verdict(s0, {})
=============================================================================
