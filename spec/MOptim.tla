------------------------------- MODULE MOptim -------------------------------
(* Exhaustive model of the outer loop against an arbitrary inner optimiser: *)
(* every sequence of inner results over a small alphabet, all limits and    *)
(* tolerances.  Completed runs are emitted and replayed on the real loop.   *)
EXTENDS Optimizer, Json, TLC, IOUtils
CONSTANTS MaxRun
Fini == <<"8", "4">>
Xs == {<<"8", "4">>, <<"8.25", "4.125">>, <<"8.5", "4">>, <<"0.03125", "4">>, <<"8", "-0.0625">>, <<"-1", "4">>}
Quality == {<<"1", "0">>, <<"2", "0.0009">>, <<"2", "-0.0011">>, <<"1", "0.5">>, <<"0", "0">>, <<"3", "0">>}
\* the alphabet: every frequency vector is met with a good result, every quality with some vector
R(x, q, fun) == [x |-> x, success |-> q[1] \in {"1", "2"}, status |-> q[1], cv |-> q[2], fun |-> fun]
Small == {R(x, <<"1", "0">>, fun) : x \in Xs, fun \in {"5", "6"}} \cup {R(<<"8.25", "4.125">>, q, "4") : q \in Quality} \cup {R(<<"8", "4">>, <<"2", "0.0009">>, "5")}
Full == {R(x, q, fun) : x \in Xs, q \in Quality, fun \in {"5", "6"}}
Alphabet == IF IOEnv.ALPHABET = "full" THEN Full ELSE Small
Limits == {"None", "0", "1", "2", "3"}
Tols == {"0.5", "0.375", "0.25", "100"}

VARIABLES cfg, run, end
Init == /\ cfg \in {[fini |-> Fini, tol |-> t, limit |-> li] : t \in Tols, li \in Limits}
        /\ run = <<>> /\ end = FALSE
Inner(r) == /\ ~end /\ ~Over(cfg, run) /\ Len(run) < MaxRun
            /\ run' = Append(run, r) /\ UNCHANGED <<cfg, end>>
End == /\ ~end /\ Over(cfg, run) /\ end' = TRUE /\ UNCHANGED <<cfg, run>>
Next == (\E r \in Alphabet : Inner(r)) \/ End

TypeOK == Len(run) <= MaxRun
AtMostOneMore == cfg.limit # "None" => Len(run) <= NToInt(cfg.limit) + 1
\* the loop goes on only while it has neither converged nor used up its iterations
OnlyWhileNeeded == \A k \in 1..(Len(run) - 1) : ~Converged(cfg, SubSeq(run, 1, k)) /\ ~Exhausted(cfg, SubSeq(run, 1, k))
EndsForAReason == end => Converged(cfg, run) \/ Exhausted(cfg, run)
\* what can be returned is feasible, and nothing feasible is cheaper
Best == end => \A i \in Cheapest(run) :
          /\ \A k \in 1..Len(run[i].x) : NLe("0", run[i].x[k]) /\ NLe("0", Zeroed(run[i].x)[k])
          /\ ~\E k \in 1..Len(run) : Feasible(run[k]) /\ NLt(run[k].fun, run[i].fun)
\* a result passes the final check of its own status
ReturnedIsOptimal == end => \A i \in Cheapest(run) : StatusErrors([run[i] EXCEPT !.x = Zeroed(run[i].x)]) = {}
Emit == (end' /\ ~end) => PrintT("@T " \o ToJson([cfg |-> cfg, run |-> run]))
=============================================================================
