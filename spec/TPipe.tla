------------------------------- MODULE TPipe -------------------------------
(***************************************************************************)
(* Validation of recorded evaluations: extended network, strategies, paths,*)
(* assignment, loads, resources, costs, constraints, optimiser, reports.   *)
(* Every stage is judged against the specification applied to the inputs   *)
(* the real code used at that stage.                                       *)
(***************************************************************************)
EXTENDS TraceBase, Costs, Report

St == [in |-> <<>>]

\* ------------------------------ bookkeeping ------------------------------
Inputs(e) == [in |-> e.in, pos |-> PosOf(e.in), pairs |-> <<>>, trips |-> <<>>, succ |-> <<>>, labs |-> <<>>, tot |-> <<>>]
WithExtended(s0, e) ==
  LET nd == [k \in {e.nodes[i].k : i \in 1..Len(e.nodes)} |-> e.nodes[CHOOSE i \in 1..Len(e.nodes) : e.nodes[i].k = k]]
      es == Ran(e.edges)
  IN [in |-> s0.in, pos |-> s0.pos, nd |-> nd, edges |-> es, out |-> [k \in DOMAIN nd |-> {x \in es : x.a = k}],
      et |-> [p \in {<<x.a, x.b>> : x \in es} |-> (CHOOSE x \in es : x.a = p[1] /\ x.b = p[2]).t],
      trips |-> <<>>, succ |-> <<>>, labs |-> <<>>, tot |-> <<>>]
SucOf(s0, e) == [k \in DOMAIN s0.nd |-> IF Has(e.suc, k) THEN {<<x[1], x[2]>> : x \in Ran(e.suc[k])} ELSE {}]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
WithStrategy(s0, e) == [s0 EXCEPT !.succ = Put(@, <<e.o, e.d>>, SucOf(s0, e)), !.labs = Put(@, <<e.o, e.d>>, e.label)]
WithAssign(s0, e) == [s0 EXCEPT !.trips = e.pairs]
\* a recorded per-vehicle table: missing entries are zero
At(tbl, k) == IF Has(tbl, k) THEN tbl[k] ELSE "0"
LinesOf(nd) == {k \in DOMAIN nd : nd[k].ty = "line"}
TotOf(s0, e) == [k \in LinesOf(s0.nd) |-> [z |-> At(e.z, k), v |-> At(e.v, k), l |-> At(e.l, k)]]
WithLoads(s0, e) == [s0 EXCEPT !.tot = TotOf(s0, e), !.in.f = e.f]
Follow(s0, e) ==
  CASE e.op = "inputs" -> Inputs(e)
    [] e.op = "extended" -> WithExtended(s0, e)
    [] e.op = "strategy" -> WithStrategy(s0, e)
    [] e.op = "assign" -> WithAssign(s0, e)
    [] e.op = "loading" /\ e.outcome = "ok" -> WithLoads(s0, e)
    [] OTHER -> s0
OK(e) == C(e.op \o "_failed", e.outcome = "ok")

\* ---------------------------- extended network ---------------------------
JudgeC13(s0, e) ==
  IF e.op # "extended" THEN Verdict(Follow(s0, e), {})
  ELSE LET nodes == ENodes(s0.in)
           keys == {EdgeKey(x) : x \in EEdges(s0.in)}
           got == {EdgeKey(e.edges[i]) : i \in 1..Len(e.edges)}
           of(ty) == {x.k : x \in {y \in nodes : y.ty = ty}}
           gotof(ty) == {x.k : x \in {y \in Ran(e.nodes) : y.ty = ty}}
           ed(S, ty) == {x \in S : x[3] = ty}
       IN Verdict(s0,
            C("city_nodes", gotof("city") = of("city")) \cup C("stop_nodes", gotof("stop") = of("stop"))
            \cup C("line_nodes", gotof("line") = of("line"))
            \cup C("node_attributes", \A x \in Ran(e.nodes) : x.k \in {y.k : y \in nodes} => x \in nodes)
            \cup C("nodes_once", Len(e.nodes) = Cardinality(gotof("city") \cup gotof("stop") \cup gotof("line")))
            \cup C("access_links", ed(got, "ACCESS") = ed(keys, "ACCESS")) \cup C("boarding_links", ed(got, "BOARDING") = ed(keys, "BOARDING"))
            \cup C("alighting_links", ed(got, "ALIGHTING") = ed(keys, "ALIGHTING")) \cup C("ride_links", ed(got, "ROUTE") = ed(keys, "ROUTE"))
            \cup C("links_once", Len(e.edges) = Cardinality(got)))
JudgeC14(s0, e) ==
  IF e.op # "extended" THEN Verdict(Follow(s0, e), {})
  ELSE LET want == EEdges(s0.in)
           w == [k \in {EdgeKey(x) : x \in want} |-> CHOOSE x \in want : EdgeKey(x) = k]
           bad(i) == LET x == e.edges[i] IN EdgeKey(x) \in DOMAIN w /\ ~NClose(x.t, w[EdgeKey(x)].t)
           badf(i) == LET x == e.edges[i] IN EdgeKey(x) \in DOMAIN w /\ ~(IF w[EdgeKey(x)].f = "inf" THEN x.f = "inf" ELSE x.f # "inf" /\ NClose(x.f, w[EdgeKey(x)].f))
       IN Verdict(s0, {SCat("time_of_", e.edges[i].ty) : i \in {j \in 1..Len(e.edges) : bad(j)}}
                 \cup {SCat("frequency_of_", e.edges[i].ty) : i \in {j \in 1..Len(e.edges) : badf(j)}}
                 \cup C("ride_links_measured", {EdgeKey(x) : x \in {y \in want : y.ty \in {"ROUTE", "BOARDING"}}} \subseteq {EdgeKey(x) : x \in Ran(e.edges)}))

\* -------------------------------- strategies -----------------------------
\* the label of a stop of the origin includes reaching it
RawLabel(s0, e) ==
  [k \in DOMAIN s0.nd |->
     LET n == s0.nd[k] IN
     IF n.ty = "stop" /\ n.n = e.o /\ e.label[k] # "inf"
     THEN NSub(e.label[k], NMul(NDiv(s0.in.modes[n.m].tat, "60"), Weight(s0.in.pax, "pa"))) ELSE e.label[k]]
JudgeC15(s0, e) ==
  CASE e.op = "strategy" ->
        LET s1 == WithStrategy(s0, e)
            suc == SucOf(s0, e)
            complete == \A k \in DOMAIN s0.nd : Has(e.label, k)
            lab == RawLabel(s0, e)
            ks == {k \in DOMAIN s0.nd : k # CKey(e.o)}
            live == {k \in ks : lab[k] # "inf"}
        IN Verdict(s1,
             IF e.outcome # "ok" THEN {"no_strategy"} ELSE IF ~complete THEN {"labels_missing"} ELSE
             C("label_optimal", \A k \in ks : LabelOK(s0.nd, s0.out, s0.in.pax, s0.in.modes, e.o, e.d, lab, k))
             \cup C("links_optimal", \A k \in ks : ChoiceOK(s0.nd, s0.out, s0.in.pax, s0.in.modes, e.o, e.d, lab, suc[k], k))
             \cup C("strategy_reaches_destination", live \subseteq Grounded({CKey(e.d)}, live, suc))
             \cup C("infinite_iff_unreachable", live = ks \cap Reaching(s0.edges, e.o, e.d))
             \cup C("combined_frequency", \A k \in live : (s0.nd[k].ty = "stop" /\ \E x \in suc[k] : s0.nd[x[2]].ty = "line") =>
                       NClose(e.freq[k], ChosenFreq(s0.out, suc[k], k)))
             \cup C("links_of_the_network", \A k \in DOMAIN s0.nd : \A x \in suc[k] : x[1] = k /\ \E y \in s0.out[k] : y.b = x[2]))
    [] OTHER -> Verdict(Follow(s0, e), {})

Positive(dem) == {i \in 1..Len(dem) : ~NEq(dem[i][3], "0")}
Connected(s0, o, d) == \E k \in Reaching(s0.edges, o, d) : s0.nd[k].ty = "stop" /\ s0.nd[k].n = o
Served(s0, n) == CKey(n) \in DOMAIN s0.nd
PairOK(s0, o, d) == Served(s0, o) /\ Served(s0, d) /\ Connected(s0, o, d)
\* the modes that stop somewhere: one, or two of which one runs on a single line
UsableModes(s0) ==
  LET ts == {s0.nd[k].m : k \in {x \in DOMAIN s0.nd : s0.nd[x].ty = "stop"}}
  IN \/ Cardinality(ts) = 1
     \/ Cardinality(ts) = 2 /\ \E t \in ts : NEq(s0.in.modes[t].d, "1")
JudgeC16(s0, e) ==
  CASE e.op = "validator" ->
        LET ok == \A i \in Positive(e.demand) : PairOK(s0, e.demand[i][1], e.demand[i][2])
        IN Verdict(s0, IF ~UsableModes(s0) THEN C("unusable_modes_accepted", e.outcome = "TransportNetworkException")
                       ELSE IF ok THEN C("connected_rejected", e.outcome = "ok")
                       ELSE C("disconnected_accepted", e.outcome = "TransportNetworkException"))
    [] e.op = "paths" ->
        LET suc == s0.succ[<<e.o, e.d>>]
            lab == s0.labs[<<e.o, e.d>>]
            live == {k \in DOMAIN s0.nd : s0.nd[k].ty = "stop" /\ s0.nd[k].n = e.o /\ lab[k] # "inf"}
            want(k) == {<<CKey(e.o)>> \o q : q \in PathsFrom(suc, k, e.d, Cardinality(DOMAIN s0.nd))}
            have == {e.stops[i].s : i \in 1..Len(e.stops)}
        IN Verdict(s0,
             IF e.outcome # "ok" THEN {"paths_failed"} ELSE
             C("stops_with_paths", have = live)
             \cup C("elementary_paths", \A i \in 1..Len(e.stops) : Ran(e.stops[i].paths) = want(e.stops[i].s))
             \cup C("paths_once", \A i \in 1..Len(e.stops) : NoDup(e.stops[i].paths)))
    [] e.op = "pairs" -> \* the pairs for which strategies are produced, with their demand
        Verdict(s0, C("pairs_with_demand", {<<x[1], x[2]>> : x \in Ran(e.pairs)} = {<<e.demand[i][1], e.demand[i][2]>> : i \in Positive(e.demand)})
                 \cup C("demand_of_pairs", \A i \in 1..Len(e.pairs) : \E j \in Positive(e.demand) :
                        e.demand[j][1] = e.pairs[i][1] /\ e.demand[j][2] = e.pairs[i][2] /\ NEq(e.demand[j][3], e.pairs[i][3])))
    [] OTHER -> Verdict(Follow(s0, e), {})

\* -------------------------------- assignment -----------------------------
SplitOK(p, vp, pa, pv, ss) == \* ss: sequence of [d, lab, pct]
  LET n == Len(ss)
      ones == {i \in 1..n : NEq(ss[i].d, "1")}
      sum == NSum([i \in 1..n |-> ss[i].pct])
  IN C("shares_not_negative", \A i \in 1..n : NLe("0", ss[i].pct))
     \cup C("everything_assigned", NClose(sum, "100"))
     \cup (IF n # 2 \/ ones = {} THEN {}
           ELSE LET i == IF Cardinality(ones) = 2 THEN 1 ELSE CHOOSE x \in ones : TRUE
                    k == 3 - i
                IN C("walking_indifference",
                     \/ ShareOK(ss[i].pct, ss[i].lab, ss[k].lab, NToInt(ss[k].d), p, vp, pa, pv)
                     \/ Cardinality(ones) = 2 /\ NCloseT(ss[i].lab, ss[k].lab, "1e-12")))
JudgeC17(s0, e) ==
  CASE e.op = "split" -> Verdict(s0, IF e.outcome # "ok" THEN {"split_failed"} ELSE SplitOK(e.p, e.vp, e.pa, e.pv, e.stops))
    [] e.op = "splitnone" -> Verdict(s0, C("no_demand_no_assignment", e.n = 0))
    [] e.op = "assign" ->
        LET lab(i, k) == s0.labs[<<e.pairs[i].o, e.pairs[i].d>>][k]
            ss(i) == [j \in 1..Len(e.pairs[i].stops) |-> LET sp == e.pairs[i].stops[j] IN
                        [d |-> s0.in.modes[s0.nd[sp.s].m].d, lab |-> lab(i, sp.s), pct |-> sp.pct]]
        IN Verdict(WithAssign(s0, e),
             UNION {SplitOK(s0.in.p, s0.in.pax.va, s0.in.pax.pa, s0.in.pax.pv, ss(i)) : i \in 1..Len(e.pairs)}
             \cup C("assigned_pairs", {<<x[1], x[2]>> : x \in Ran(e.assigned)} = {<<e.pairs[i].o, e.pairs[i].d>> : i \in 1..Len(e.pairs)}))
    [] OTHER -> Verdict(Follow(s0, e), {})

\* ------------------------------- passengers ------------------------------
ServedBy(in, nd, rid, dir) == LET r == RouteById([routes |-> in.routes], rid) IN Calls(r, dir)
JudgeC18(s0, e) ==
  IF e.op # "loading" THEN Verdict(Follow(s0, e), {})
  ELSE IF e.outcome # "ok" THEN Verdict(s0, {"loading_failed"})
  ELSE
  LET s1 == WithLoads(s0, e)
      nd == s0.nd
      pfs == PathFlows(e.f, nd, s0.trips, s0.succ)
      want == Totals(e.f, nd, pfs)
      tot == s1.tot
      lines == LinesOf(nd)
      prev(k) == {x[1] : x \in {y \in DOMAIN s0.et : y[2] = k /\ nd[y[1]].ty = "line"}}
      before(k) == NSumSet([x \in prev(k) |-> tot[x].l], prev(k))
      demand == NSum([i \in 1..Len(s0.trips) |-> s0.trips[i].v])
      fz(w, S) == NSumSet([k \in S |-> NMul(e.f[nd[k].r], tot[k][w])], S)
      dests == {s0.trips[i].d : i \in 1..Len(s0.trips)}
      to(d) == NSum([i \in 1..Len(s0.trips) |-> IF s0.trips[i].d = d THEN s0.trips[i].v ELSE "0"])
      from(o) == NSum([i \in 1..Len(s0.trips) |-> IF s0.trips[i].o = o THEN s0.trips[i].v ELSE "0"])
      at(n) == {k \in lines : nd[k].n = n}
  IN Verdict(s1,
       C("only_line_stops", DOMAIN e.z \subseteq lines /\ DOMAIN e.v \subseteq lines /\ DOMAIN e.l \subseteq lines)
       \cup C("nothing_negative", \A k \in lines : NLe("0", tot[k].z) /\ NLe("0", tot[k].v) /\ NLe("0", tot[k].l))
       \cup C("boardings", \A k \in lines : CloseN(tot[k].z, want[k].z))
       \cup C("alightings", \A k \in lines : CloseN(tot[k].v, want[k].v))
       \cup C("loads", \A k \in lines : CloseN(tot[k].l, want[k].l))
       \cup C("load_balance", \A k \in lines : NCloseT(tot[k].l, NAdd(before(k), NSub(tot[k].z, tot[k].v)), "1e-6"))
       \cup C("boardings_equal_alightings", NCloseT(fz("z", lines), fz("v", lines), "1e-6"))
       \cup C("demand_boards", NLe(demand, NAdd(fz("z", lines), NMul("1e-6", NAdd("1", demand)))))
       \* net arrivals at a place: demand to it minus demand from it
       \cup C("demand_arrives", \A n \in {nd[k].n : k \in lines} :
               NCloseT(NSub(fz("v", at(n)), fz("z", at(n))), NSub(to(n), from(n)), "1e-6"))
       \cup C("most_loaded_section", \A i \in 1..Len(s0.in.routes) : LET rid == s0.in.routes[i].id IN
               CloseN(At(e.mls, rid), MostLoaded(tot, nd, rid)) /\ (\A k \in lines : nd[k].r = rid => NLeTol(tot[k].l, At(e.mls, rid)))))

\* ---------------------------------- costs --------------------------------
JudgeC19(s0, e) ==
  IF e.op # "resources" THEN Verdict(Follow(s0, e), {})
  ELSE IF e.outcome # "ok" THEN Verdict(s0, {"resources_failed"})
  ELSE LET r == Resources(s0.in, s0.nd, s0.pos, s0.et, s0.trips, s0.succ, s0.tot)
           got == [ta |-> e.ta, te |-> e.te, tv |-> e.tv, t |-> e.t]
           lines == LinesOf(s0.nd)
           boards == NSumSet([k \in lines |-> NMul(s0.in.f[s0.nd[k].r], s0.tot[k].z)], lines)
           demand == NSum([i \in 1..Len(s0.trips) |-> s0.trips[i].v])
       IN Verdict(s0,
            C("access_time", CloseN(e.ta, r.ta)) \cup C("waiting_time", CloseN(e.te, r.te)) \cup C("time_on_board", CloseN(e.tv, r.tv))
            \cup C("transfers", CloseN(e.t, r.t))
            \cup C("transfers_are_boardings_minus_trips", NCloseT(e.t, NSub(boards, demand), "1e-6"))
            \cup C("users_cost", CloseN(e.cost, UsersCostOf(s0.in.pax, r))))
JudgeC20(s0, e) ==
  IF e.op # "operators" THEN Verdict(Follow(s0, e), {})
  ELSE IF e.outcome # "ok" THEN Verdict(s0, {"operators_failed"})
  ELSE LET rs == Routes(s0.in)
           kk(r) == At(e.k, r.id)
       IN Verdict(s0,
            C("driving_time", \A r \in rs : CloseN(e.travel[r.id], TravelTime(s0.in, s0.pos, r)))
            \cup C("cycle_time", \A r \in rs : CloseN(e.cycle[r.id], CycleTime(s0.in, s0.nd, s0.pos, s0.tot, r)))
            \cup C("operators_cost", CloseN(e.cost, NSumSet([r \in rs |-> RouteCost(s0.in, r, kk(r), CycleTime(s0.in, s0.nd, s0.pos, s0.tot, r))], rs))))
JudgeC21(s0, e) ==
  IF e.op # "infrastructure" THEN Verdict(Follow(s0, e), {})
  ELSE IF e.outcome # "ok" THEN Verdict(s0, {"infrastructure_failed"})
  ELSE LET in == [s0.in EXCEPT !.f = e.f] IN
       Verdict(s0, C("length_by_mode", \A t \in DOMAIN in.modes : CloseN(At(e.len, t), ModeLength(in, s0.pos, t)))
                \cup C("infrastructure_cost", CloseN(e.cost, InfraCost(in, s0.pos))))
WantK(in, tot, nd) == [i \in 1..Len(in.routes) |-> SizeExcess(in, tot, nd, in.routes[i])]
LinkModes(e) == [i \in 1..(Len(e.links) * Len(e.tags)) |->
                   <<e.links[((i - 1) \div Len(e.tags)) + 1], e.tags[((i - 1) % Len(e.tags)) + 1]>>]
WantF(in, e) == LET lm == LinkModes(e) IN [i \in 1..Len(lm) |-> LinkExcess(in, <<lm[i][1][1], lm[i][1][2]>>, lm[i][2])]
SeqClose(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : CloseN(p[i], q[i])
JudgeC22(s0, e) ==
  IF e.op = "sizes" THEN \* direct call with given most loaded sections
    Verdict(s0, IF e.outcome # "ok" THEN {"sizes_failed"} ELSE
      C("vehicle_size", SeqClose(e.val, [i \in 1..Len(s0.in.routes) |-> NSub(At(e.mls, s0.in.routes[i].id), s0.in.modes[s0.in.routes[i].mode].kmax)])))
  ELSE IF e.op # "constraints" THEN Verdict(Follow(s0, e), {})
  ELSE IF e.outcome # "ok" THEN Verdict(s0, {"constraints_failed"})
  ELSE LET in == [s0.in EXCEPT !.f = e.f]
           wf == WantF(in, e)
           wk == WantK(in, s0.tot, s0.nd)
       IN Verdict(s0,
            (IF e.part # "all" THEN C("link_frequency", SameBag(wf, e.val))
             ELSE C("all_constraints", SameBag(wk \o wf, e.val))))

\* the optimiser works on its own inputs: network, strategies and shares are theirs
\* an inner optimisation can end at a slightly negative frequency: no strategies are defined there
NoNegative(s0) == \A i \in 1..Len(s0.in.routes) : ~NLt(s0.in.f[s0.in.routes[i].id], "0")
OwnInputs(s0, e) ==
  CASE e.op = "extended" -> JudgeC13(s0, e).fails \cup JudgeC14(s0, e).fails
    [] e.op \in {"strategy", "pairs", "assign"} ->
         IF ~NoNegative(s0) THEN {}
         ELSE CASE e.op = "strategy" -> JudgeC15(s0, e).fails
                [] e.op = "pairs" -> JudgeC16(s0, e).fails
                [] OTHER -> JudgeC17(s0, e).fails
    [] OTHER -> {}
JudgeC23(s0, e) ==
  CASE e.op = "vector" ->
        LET ids == [i \in 1..Len(s0.in.routes) |-> s0.in.routes[i].id]
        IN Verdict(s0,
             C("vector_starts_at_initial_frequency", e.outcome = "ok" /\ Len(e.fopt) = Len(ids) /\
                  \A i \in 1..Len(ids) : NEq(e.fopt[i], s0.in.modes[s0.in.routes[i].mode].fini))
             \cup C("frequencies_of_routes", e.outcome = "ok" /\ DOMAIN e.fini = Ran(ids) /\ \A i \in 1..Len(ids) : NEq(e.fini[ids[i]], e.given[ids[i]])))
    [] e.op = "back" ->
        LET ids == [i \in 1..Len(s0.in.routes) |-> s0.in.routes[i].id]
        IN Verdict(s0, C("vector_to_frequencies", e.outcome = "ok" /\ DOMAIN e.f = Ran(ids) /\ \A i \in 1..Len(ids) : NEq(e.f[ids[i]], e.vec[i])))
    [] e.op = "objective" ->
        LET in == s0.in
            r == Resources(in, s0.nd, s0.pos, s0.et, s0.trips, s0.succ, s0.tot)
            rs == Routes(in)
            co == NSumSet([x \in rs |-> RouteCost(in, x, MostLoaded(s0.tot, s0.nd, x.id), CycleTime(in, s0.nd, s0.pos, s0.tot, x))], rs)
        IN Verdict(s0,
             IF e.outcome # "ok" THEN {"objective_failed"} ELSE
             C("vehicle_size", \A x \in rs : CloseN(At(e.k, x.id), MostLoaded(s0.tot, s0.nd, x.id)))
             \cup C("objective_value", CloseN(e.vrc, NAdd(NAdd(co, InfraCost(in, s0.pos)), UsersCostOf(in.pax, r))))
             \cup C("objective_adds_up", CloseN(e.vrc, NAdd(NAdd(e.co, e.ci), e.cu))))
    [] e.op = "constraints" -> JudgeC22(s0, e)
    [] OTHER -> Verdict(Follow(s0, e), OwnInputs(s0, e))

\* ---------------------------------- reports ------------------------------
JudgeC25(s0, e) ==
  CASE e.op = "report" ->
        Verdict([in |-> s0.in, nd |-> s0.nd, tot |-> s0.tot, pos |-> s0.pos, trips |-> s0.trips, succ |-> s0.succ, et |-> s0.et, rows |-> e.rows],
          IF e.outcome # "ok" THEN {"report_failed"}
          ELSE IF [i \in 1..Len(e.rows) |-> e.rows[i].id] # [i \in 1..Len(s0.in.routes) |-> s0.in.routes[i].id] THEN {"one_row_per_route"}
          ELSE UNION {RowFails(s0.in, s0.nd, s0.pos, s0.tot, s0.in.routes[i], e.rows[i]) : i \in 1..Len(e.rows)})
    [] e.op = "report_text" ->
        Verdict(s0, IF e.outcome # "ok" THEN {"report_text_failed"}
          ELSE C("text_header", e.header = ReportHeader)
          \cup C("text_rows", Len(e.rows) = Len(s0.rows) /\ \A i \in 1..Len(e.rows) : TextRowOK(e.rows[i], s0.rows[i]))
          \cup C("file_is_text", e.file = e.text))
    [] OTHER -> Verdict(Follow(s0, e), {})
JudgeC26(s0, e) ==
  CASE e.op = "overall" ->
        LET in == s0.in
            r == Resources(in, s0.nd, s0.pos, s0.et, s0.trips, s0.succ, s0.tot)
            want == Overall(in, s0.nd, s0.pos, s0.tot, r, NSum([i \in 1..Len(s0.trips) |-> s0.trips[i].v]))
        IN Verdict([in |-> s0.in, nd |-> s0.nd, tot |-> s0.tot, pos |-> s0.pos, trips |-> s0.trips, succ |-> s0.succ, et |-> s0.et, res |-> e.res],
             IF e.outcome # "ok" THEN {"overall_failed"} ELSE OverallFails(want, e.res))
    [] e.op = "overall_text" -> Verdict(s0, IF e.outcome # "ok" THEN {"overall_text_failed"} ELSE OverallTextFails(s0.res, e.val))
    [] OTHER -> Verdict(Follow(s0, e), {})
=============================================================================
