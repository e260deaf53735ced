----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* Validation of recorded runs of the implementation.  The file named by   *)
(* the environment variable TRACE holds a sequence of scenarios, each a    *)
(* sequence of events recorded at the public API of the real code: the     *)
(* operation, its arguments, its outcome ("ok" or the error raised) and    *)
(* the projected state.  One TLC step consumes one event.  Judge(st, e)    *)
(* is the action of the specification for e: it yields the next            *)
(* specification state and the set of clauses the recorded event breaks;   *)
(* every verdict is total and names the clauses (a failed event does not   *)
(* stop the validation of the following ones).                             *)
(***************************************************************************)
EXTENDS Num, TLC, Json, IOUtils, FiniteSets

CONSTANTS Judge(_, _), St0

Scenarios == JsonDeserialize(IOEnv.TRACE)

VARIABLES s, l, st, out

TInit == s = 1 /\ l = 0 /\ st = St0 /\ out = {}

Consume == /\ s <= Len(Scenarios) /\ l < Len(Scenarios[s])
           /\ LET r == Judge(st, Scenarios[s][l + 1])
              IN  /\ st' = r.st
                  /\ out' = r.fails
                  /\ IF r.fails = {} THEN TRUE
                     ELSE PrintT("@V " \o ToJson([s |-> s, l |-> l + 1, f |-> r.fails]))
           /\ l' = l + 1
           /\ UNCHANGED s
NextScenario == /\ s <= Len(Scenarios) /\ l = Len(Scenarios[s])
                /\ s' = s + 1 /\ l' = 0 /\ st' = St0 /\ out' = {}
                /\ IF s' > Len(Scenarios) THEN PrintT("@D " \o ToJson([n |-> s])) ELSE TRUE
TNext == Consume \/ NextScenario

\* Clause combinators: C(name, holds) contributes name when it does not hold
C(name, holds) == IF holds THEN {} ELSE {name}
Verdict(state, fails) == [st |-> state, fails |-> fails]
Has(r, k) == k \in DOMAIN r
Ran(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
SeqIdx(q, P(_)) == CHOOSE i \in 1..Len(q) : P(q[i])
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
=============================================================================
