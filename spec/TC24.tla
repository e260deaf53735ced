-------------------------------- MODULE TC24 --------------------------------
(* Validation of recorded optimisations: every inner optimisation of a run  *)
(* and its end are checked against Optimizer; the objective and constraints *)
(* the inner optimiser was given are judged by the evaluation modules.      *)
EXTENDS TPipe, Optimizer

\* distances that are not sums of short binary fractions are known up to rounding: exactly at the tolerance the loop may go either way
AtTolerance(o) == ~o.cfg.dyadic /\ o.run # <<>> /\ NCloseT(Distance(Before(o.cfg, o.run), Last(o.run).x), o.cfg.tol, "1e-12")
GoesOn(o) == ~Over(o.cfg, o.run) \/ (AtTolerance(o) /\ ~Exhausted(o.cfg, o.run))
MayEnd(o) == Over(o.cfg, o.run) \/ AtTolerance(o)

StO == [cfg |-> [limit |-> "None", dyadic |-> FALSE], run |-> <<>>, pipe |-> [in |-> <<>>]]
AsR(e) == [x |-> e.x, success |-> e.success, status |-> e.status, message |-> e.message, cv |-> e.cv, fun |-> e.fun]
Pipe(o, e) == LET v == JudgeC23(o.pipe, e) IN Verdict([o EXCEPT !.pipe = v.st], v.fails)
EvalOps == {"inputs", "extended", "strategy", "assign", "loading"}
JudgeC24(o, e) ==
  CASE e.op = "start" -> Verdict([cfg |-> [fini |-> e.fini, tol |-> e.tol, limit |-> e.limit, dyadic |-> e.dyadic], run |-> <<>>, pipe |-> [in |-> <<>>]], {})
    [] e.op = "inner" ->
         Verdict([o EXCEPT !.run = Append(@, AsR(e.r))],
           C("one_more_inner_optimisation", GoesOn(o))
           \cup C("starts_at_initial_frequencies", Len(e.x0) = Len(o.cfg.fini) /\ \A i \in 1..Len(e.x0) : NEq(e.x0[i], o.cfg.fini[i]))
           \cup C("frequencies_not_negative", \A i \in 1..Len(e.lb) : NEq(e.lb[i], "0") /\ e.ub[i] = "inf")
           \cup C("constraints_imposed", \A i \in 1..Len(e.cub) : NEq(e.cub[i], "0") /\ e.clb[i] = "-inf"))
    [] e.op = "end" ->
         Verdict(o, C("stopped_early", MayEnd(o))
           \cup (IF NoResult(o.run) THEN C("no_result", e.outcome = "NoOptimalSolutionFoundException")
                 ELSE C("result_expected", e.outcome = "ok") \cup C("best_result", e.outcome = "ok" => "none" \notin DOMAIN e.res /\ MayReturn(o.run, e.res))))
    [] e.op = "status" ->
         LET er == StatusErrors(e.res) IN Verdict(o, C("status_check", IF er = {} THEN e.outcome = "ok" ELSE e.outcome \in er))
    [] e.op = "select" ->
         Verdict(o, IF e.outcome # "ok" THEN {"selection_failed"}
                    ELSE IF NoResult(e.run) THEN C("selection_of_nothing", "none" \in DOMAIN e.res)
                    ELSE C("selection", "none" \notin DOMAIN e.res /\ \E i \in Cheapest(e.run) :
                            Len(e.res.x) = Len(e.run[i].x) /\ (\A k \in 1..Len(e.res.x) : NEq(e.res.x[k], e.run[i].x[k])) /\ NEq(e.res.fun, e.run[i].fun)
                            /\ NEq(e.res.status, e.run[i].status) /\ NEq(e.res.cv, e.run[i].cv)))
    [] e.op = "stored" -> Verdict(o, C("result_is_stored", MayReturn(o.run, e.res)))
    [] e.op = "summary" ->
         Verdict(o, C("summary", e.val.success = e.res.successtext /\ NEq(e.val.status, e.res.status) /\ e.val.message = e.res.message
                      /\ NClose(e.val.cv, e.res.cv) /\ NClose(e.val.fun, e.res.fun))
                 \cup C("summary_frequencies", DOMAIN e.val.f = DOMAIN e.f /\ \A r \in DOMAIN e.f : Hundredth(e.val.f[r], e.f[r])))
    [] e.op = "noresult" -> Verdict(o, C("report_without_result", e.outcome = "NoOptimalSolutionFoundException"))
    [] e.op = "probe" -> \* objective seen by the inner optimiser at some frequencies
         LET in == o.pipe.in
             r == Resources(in, o.pipe.nd, o.pipe.pos, o.pipe.et, o.pipe.trips, o.pipe.succ, o.pipe.tot)
             rs == Routes(in)
             co == NSumSet([x \in rs |-> RouteCost(in, x, MostLoaded(o.pipe.tot, o.pipe.nd, x.id), CycleTime(in, o.pipe.nd, o.pipe.pos, o.pipe.tot, x))], rs)
         IN Verdict(o, C("objective_of_inner_optimisation", CloseN(e.vrc, NAdd(NAdd(co, InfraCost(in, o.pipe.pos)), UsersCostOf(in.pax, r))))
                    \cup C("constraints_of_inner_optimisation", SameBag(WantK(in, o.pipe.tot, o.pipe.nd) \o WantF(in, e), e.val)))
    [] e.op \in EvalOps -> Pipe(o, e)
    [] OTHER -> Verdict(o, {"unknown_event"})
=============================================================================
