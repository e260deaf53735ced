------------------------------ MODULE Optimizer -----------------------------
(***************************************************************************)
(* The outer optimisation loop: alternate assignment at the current        *)
(* frequencies and optimisation of the frequencies with that assignment.   *)
(* An inner result r is [x: frequencies, success, status, message, cv:     *)
(* constraint violation, fun: cost].  cfg is [fini: initial frequencies,   *)
(* tol, limit: "None" or a number of iterations].                          *)
(***************************************************************************)
EXTENDS Num, FiniteSets

AbsN(a) == IF NLt(a, "0") THEN NNeg(a) ELSE a
Distance(p, q) == NSum([i \in 1..Len(p) |-> AbsN(NSub(p[i], q[i]))])
Last(q) == q[Len(q)]
\* frequencies before and after the last inner optimisation of a run
Before(cfg, run) == IF Len(run) = 1 THEN cfg.fini ELSE run[Len(run) - 1].x
Converged(cfg, run) == NLt(Distance(Before(cfg, run), Last(run).x), cfg.tol)
Exhausted(cfg, run) == cfg.limit # "None" /\ NLt(cfg.limit, NInt(Len(run)))
Over(cfg, run) == run # <<>> /\ (Converged(cfg, run) \/ Exhausted(cfg, run))

\* inner results that may be returned
NotFailed(r) == ~NEq(r.status, "0") /\ ~NEq(r.status, "3") /\ ~NEq(r.status, "-1")
Feasible(r) == NotFailed(r) /\ NLt(AbsN(r.cv), "0.001") /\ \A i \in 1..Len(r.x) : NLe("0", r.x[i])
Candidates(run) == {i \in 1..Len(run) : Feasible(run[i])}
Cheapest(run) == {i \in Candidates(run) : \A k \in Candidates(run) : NLe(run[i].fun, run[k].fun)}
Zeroed(x) == [i \in 1..Len(x) |-> IF NLt(x[i], NDiv("1", "24")) THEN "0" ELSE x[i]]
\* admissible ends of a run
MayReturn(run, res) ==
  \E i \in Cheapest(run) :
    LET r == run[i]  z == Zeroed(r.x) IN
    /\ Len(res.x) = Len(z) /\ \A k \in 1..Len(z) : NEq(res.x[k], z[k])
    /\ res.success = r.success /\ NEq(res.status, r.status) /\ res.message = r.message /\ NEq(res.cv, r.cv) /\ NEq(res.fun, r.fun)
NoResult(run) == Candidates(run) = {}

\* checking of one result
StatusErrors(res) ==
  IF "none" \in DOMAIN res THEN {"NoOptimalSolutionFoundException"} ELSE
  (IF \E i \in 1..Len(res.x) : NLt(res.x[i], "-0.1") THEN {"NegativeFrequencyException"} ELSE {})
  \cup (IF NLt("0.1", AbsN(res.cv)) THEN {"ConstraintViolationException"} ELSE {})
  \cup (IF NEq(res.status, "0") \/ NEq(res.status, "3") THEN {"NoOptimalSolutionFoundException"} ELSE {})
=============================================================================
