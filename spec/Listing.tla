------------------------------ MODULE Listing ------------------------------
(***************************************************************************)
(* What the text listings of an evaluation have to show: the extended      *)
(* network, the strategy of a pair, its elementary paths, the summary of   *)
(* all pairs and the boardings and alightings.  Figures are compared up to *)
(* the decimals shown; the order of entries is free.                       *)
(* w is the state of the evaluation, with names of city nodes and modes.   *)
(***************************************************************************)
EXTENDS TPipe

Figure(x, v, half) == IF v = "inf" THEN x = "inf" ELSE NIsNum(x) /\ NLe(NSub(x, v), half) /\ NLe(NSub(v, x), half)
Two(x, v) == Figure(x, v, "0.0050001")
Four(x, v) == Figure(x, v, "0.000050001")
\* how a node is called
Place(w, k) == w.names[w.nd[k].n]
ModeName(w, k) == w.mnames[w.nd[k].m]
Caption(w, k) ==
  LET n == w.nd[k] IN
  CASE n.ty = "city" -> SCat("Citynode: ", Place(w, k))
    [] n.ty = "stop" -> SCat("Stopnode ", SCat(ModeName(w, k), SCat(": ", Place(w, k))))
    [] OTHER -> SCat("Routenode ", SCat(n.r, SCat(" ", SCat(n.dir, SCat(": ", Place(w, k))))))
Step(w, k) ==
  LET n == w.nd[k] IN
  CASE n.ty = "city" -> SCat("City_node ", Place(w, k))
    [] n.ty = "stop" -> SCat("Stop_node ", SCat(ModeName(w, k), SCat(" - ", Place(w, k))))
    [] OTHER -> SCat("Route_node ", SCat(n.r, SCat(" ", SCat(n.dir, SCat(" - ", Place(w, k))))))
Listed(w, ty) == {k \in DOMAIN w.nd : w.nd[k].ty = ty}

\* ---- the network: one entry per stop, with its lines
EdgesOf(w, a, b) == {x \in w.edges : x.a = a /\ x.b = b}
OneFigure(q, E, V(_), Shown(_, _)) == Len(q) = Cardinality(E) /\ \A i \in 1..Len(q) : \E x \in E : Shown(q[i], V(x))
LineEntry(w, k, stop, x) ==
  LET rides == {y \in w.edges : y.ty = "ROUTE" /\ y.b = k}
      freq(y) == y.f
      minutes(y) == NMul(y.t, "60")
  IN /\ x.route = w.nd[k].r /\ x.dir = w.nd[k].dir
     /\ OneFigure(x.board, EdgesOf(w, stop, k), freq, Two)
     /\ OneFigure(x.alight, EdgesOf(w, k, stop), minutes, Two)
     /\ \/ \E y \in rides : x.prev = Place(w, y.a) /\ NClose(x.t, y.t)
        \/ x.prev = "no data" /\ NEq(x.t, "0") /\ (rides = {} \/ w.nd[k].r \in w.circular)
StopEntry(w, k, x) ==
  LET c == CKey(w.nd[k].n)
      ls == {y \in Listed(w, "line") : w.nd[y].n = w.nd[k].n /\ w.nd[y].m = w.nd[k].m}
      minutes(y) == NMul(y.t, "60")
  IN /\ x.city = Place(w, k) /\ x.mode = ModeName(w, k)
     /\ OneFigure(x.access, EdgesOf(w, c, k), minutes, Two)
     /\ Len(x.lines) = Cardinality(ls) /\ \A y \in ls : \E i \in 1..Len(x.lines) : LineEntry(w, y, k, x.lines[i])
NetworkFails(w, e) ==
  C("every_city_node_listed", Len(e.cities) = Cardinality(Listed(w, "city")) /\ Ran(e.cities) = {Place(w, k) : k \in Listed(w, "city")})
  \cup C("every_stop_listed", Len(e.rows) = Cardinality(Listed(w, "stop")))
  \cup C("stop_entries", \A k \in Listed(w, "stop") : \E i \in 1..Len(e.rows) : StopEntry(w, k, e.rows[i]))

\* ---- the strategy of a pair: one entry per node
NodeEntry(w, k, lab, suc, fr, x) ==
  LET n == w.nd[k]
      kind(b) == (CHOOSE y \in w.edges : y.a = k /\ y.b = b).ty
  IN /\ x.ty = n.ty /\ x.node = Place(w, k)
     /\ x.mode = (IF n.ty = "stop" THEN ModeName(w, k) ELSE "") /\ x.route = n.r /\ x.dir = n.dir
     /\ Two(x.label, lab[k]) /\ Two(x.freq, fr[k])
     /\ Len(x.suc) = Cardinality(suc[k])
     /\ Ran(x.suc) = {<<kind(y[2]), Caption(w, y[1]), Caption(w, y[2])>> : y \in suc[k]}
StrategyFails(w, e) ==
  LET p == <<e.o, e.d>> IN
  C("every_node_listed", Len(e.rows) = Cardinality(DOMAIN w.nd))
  \cup C("node_entries", \A k \in DOMAIN w.nd : \E i \in 1..Len(e.rows) : NodeEntry(w, k, w.labs[p], w.succ[p], w.freqs, e.rows[i]))

\* ---- elementary paths of a pair
PathEntry(w, q, lab, x) == Len(x) = Len(q) /\ \A i \in 1..Len(q) : x[i].what = Step(w, q[i]) /\ Four(x[i].label, lab[q[i]])
PathFails(w, e) ==
  LET lab == w.labs[<<e.o, e.d>>] IN
  C("every_stop_of_the_origin", Len(e.rows) = Len(w.paths))
  \cup C("path_entries", \A i \in 1..Len(w.paths) : \E j \in 1..Len(e.rows) :
          /\ e.rows[j].mode = ModeName(w, w.paths[i].s)
          /\ Len(e.rows[j].paths) = Len(w.paths[i].paths)
          /\ \A a \in 1..Len(w.paths[i].paths) : \E b \in 1..Len(e.rows[j].paths) : PathEntry(w, w.paths[i].paths[a], lab, e.rows[j].paths[b]))

\* ---- summary of all pairs: one entry per stop of an origin
PairStops(w) == UNION {{<<i, j>> : j \in 1..Len(w.trips[i].stops)} : i \in 1..Len(w.trips)}
PairEntry(w, ij, x) ==
  LET p == w.trips[ij[1]]  q == p.stops[ij[2]] IN
  /\ x.o = w.names[p.o] /\ x.d = w.names[p.d] /\ Two(x.v, p.v) /\ x.mode = ModeName(w, q.s)
  /\ Two(x.label, w.labs[<<p.o, p.d>>][q.s]) /\ NEq(x.paths, NInt(Len(q.paths)))
  /\ NEq(x.links, NInt(Cardinality(w.succ[<<p.o, p.d>>][q.s])))
PairFails(w, e) ==
  C("every_pair_listed", Len(e.rows) = Cardinality(PairStops(w)))
  \cup C("pair_entries", \A ij \in PairStops(w) : \E i \in 1..Len(e.rows) : PairEntry(w, ij, e.rows[i]))

\* ---- boardings and alightings: everything that is not zero, once
LoadEntry(w, k, kind, x) ==
  LET n == w.nd[k] IN
  /\ x.route = n.r /\ x.dir = n.dir /\ x.kind = kind /\ x.stop = SCat(ModeName(w, k), SCat("-", Place(w, k)))
Load(w, k, kind) == IF kind = "B" THEN w.tot[k].z ELSE w.tot[k].v
LoadFails(w, e) ==
  LET ks == Listed(w, "line") \X {"B", "A"}
      at(k) == {i \in 1..Len(e.rows) : LoadEntry(w, k[1], k[2], e.rows[i])}
  IN C("everything_listed", \A k \in ks : NEq(Load(w, k[1], k[2]), "0") \/ at(k) # {})
     \cup C("listed_once", \A k \in ks : Cardinality(at(k)) <= 1)
     \cup C("nothing_else_listed", UNION {at(k) : k \in ks} = 1..Len(e.rows))
     \cup C("passengers", \A k \in ks : \A i \in at(k) : Two(e.rows[i].x, Load(w, k[1], k[2])))

CircularRoutes(in) == {in.routes[i].id : i \in {j \in 1..Len(in.routes) : in.routes[j].type = "CIRCULAR"}}
\* the state of the evaluation, with what only the listings need
Plus(s0, v) == [k \in DOMAIN v \cup {"names", "mnames", "circular", "freqs", "paths"} |-> IF k \in DOMAIN v THEN v[k] ELSE s0[k]]
JudgeC28(s0, e) ==
  LET listing == e.op \in {"network_text", "strategy_text", "paths_text", "pairs_text", "loads_text"}
      fails(F) == IF e.outcome # "ok" THEN {SCat("listing_failed_", e.op)} ELSE C("listing_repeats", e.same) \cup F
  IN CASE e.op = "inputs" ->
            LET v == Inputs(e) IN Verdict([k \in DOMAIN v \cup {"names", "mnames", "circular", "freqs", "paths"} |->
                CASE k = "names" -> e.names [] k = "mnames" -> e.mnames [] k = "circular" -> CircularRoutes(e.in)
                  [] k = "freqs" -> <<>> [] k = "paths" -> <<>> [] OTHER -> v[k]], {})
       [] e.op = "network_text" -> Verdict(s0, fails(NetworkFails(s0, e)))
       [] e.op = "strategy_text" -> Verdict(s0, fails(StrategyFails(s0, e)))
       [] e.op = "paths_text" -> Verdict(s0, fails(PathFails(s0, e)))
       [] e.op = "pairs_text" -> Verdict(s0, fails(PairFails(s0, e)))
       [] e.op = "loads_text" -> Verdict(s0, fails(LoadFails(s0, e)))
       [] e.op = "strategy" -> Verdict([Plus(s0, WithStrategy(s0, e)) EXCEPT !.freqs = e.freq], {})
       [] e.op = "paths" -> Verdict([s0 EXCEPT !.paths = e.stops], {})
       [] e.op = "still" -> \* a listing leaves what it shows as it was
            Verdict(s0, C("listing_changes_nothing", s0.succ[<<e.o, e.d>>] = SucOf(s0, e) /\ s0.freqs = e.freq /\ s0.labs[<<e.o, e.d>>] = e.label))
       [] e.op = "still_paths" -> Verdict(s0, C("listing_keeps_the_paths", e.was = e.now))
       [] OTHER -> Verdict(Plus(s0, Follow(s0, e)), {})
=============================================================================
