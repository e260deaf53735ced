----------------------------- MODULE MStrategy ------------------------------
(***************************************************************************)
(* The label-setting construction of strategies as a state machine: nodes  *)
(* are settled in order of their cost, ties in any order, and the lines of *)
(* a stop are added while they lower its cost.  Explored exhaustively on    *)
(* extended networks built by the specification from the inputs in the     *)
(* file CASES; at the end, the labels solve the optimality equations, they *)
(* are the same whatever the order of ties, and they are the labels the    *)
(* implementation computed for the same inputs (field label).              *)
(***************************************************************************)
EXTENDS Strategy, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.CASES)
N == Len(Cases)
Nd(c) == LET ns == ENodes(c.in) IN [k \in {x.k : x \in ns} |-> CHOOSE x \in ns : x.k = k]
\* computed once per case
CNd == [i \in 1..N |-> Nd(Cases[i])]
CEd == [i \in 1..N |-> EEdges(Cases[i].in)]
CIn == [i \in 1..N |-> [k \in DOMAIN CNd[i] |-> {e \in CEd[i] : e.b = k /\ Usable4(e, Cases[i].o)}]]
COut == [i \in 1..N |-> [k \in DOMAIN CNd[i] |-> {e \in CEd[i] : e.a = k}]]

VARIABLES c, done, plain, lines, freq, suc
vars == <<c, done, plain, lines, freq, suc>>
Keys == DOMAIN CNd[c]
In == Cases[c].in
Cost(k) == IF plain[k] = "inf" THEN lines[k] ELSE IF lines[k] = "inf" THEN plain[k] ELSE NMin(plain[k], lines[k])
Lower(a, b) == b = "inf" \/ (a # "inf" /\ NLt(a, b))

Init == /\ c \in 1..N
        /\ done = {}
        /\ plain = [k \in DOMAIN CNd[c] |-> IF k = CKey(Cases[c].d) THEN "0" ELSE "inf"]
        /\ lines = [k \in DOMAIN CNd[c] |-> "inf"]
        /\ freq = [k \in DOMAIN CNd[c] |-> "0"]
        /\ suc = [k \in DOMAIN CNd[c] |-> {}]
Open == {k \in Keys \ done : Cost(k) # "inf"}
Minimal == {k \in Open : \A x \in Open : NLe(Cost(k), Cost(x))}
\* effect of settling k on the tail a of its incoming links (at most one boarding link joins a and k)
T(k, e) == NAdd(LinkCost(CNd[c], In.pax, Cases[c].d, e), Cost(k))
PlainTo(k, a) == {T(k, e) : e \in {x \in CIn[c][k] : x.a = a /\ Plain(x)}}
BoardTo(k, a) == {e \in CIn[c][k] : e.a = a /\ ~Plain(e) /\ NLt("0", e.f)}
ThetaW(a) == NMul(In.modes[CNd[c][a].m].theta, Weight(In.pax, "pw"))
Settle(k) ==
  LET tails == {e.a : e \in CIn[c][k]} \ (done \cup {k})
      np(a) == IF a \in tails /\ PlainTo(k, a) # {} /\ Lower(MinOf(PlainTo(k, a)), plain[a]) THEN MinOf(PlainTo(k, a)) ELSE plain[a]
      add(a) == a \in tails /\ \E e \in BoardTo(k, a) : Lower(T(k, e), lines[a])
      e1(a) == CHOOSE e \in BoardTo(k, a) : TRUE
      nl(a) == IF ~add(a) THEN lines[a]
               ELSE IF NEq(freq[a], "0") THEN NDiv(NAdd(ThetaW(a), NMul(e1(a).f, T(k, e1(a)))), e1(a).f)
               ELSE NDiv(NAdd(NMul(freq[a], lines[a]), NMul(e1(a).f, T(k, e1(a)))), NAdd(freq[a], e1(a).f))
  IN /\ done' = done \cup {k}
     /\ plain' = [a \in Keys |-> np(a)]
     /\ lines' = [a \in Keys |-> nl(a)]
     /\ freq' = [a \in Keys |-> IF add(a) THEN NAdd(freq[a], e1(a).f) ELSE freq[a]]
     /\ suc' = [a \in Keys |-> IF add(a) THEN suc[a] \cup {<<a, k>>} ELSE suc[a]]
     /\ UNCHANGED c
Next == \E k \in Minimal : Settle(k)
Ended == Open = {}
Final == [k \in Keys |-> Cost(k)]
\* settled costs are never improved later, and they do not decrease
Monotone == \A k \in done, x \in Open : NLe(Cost(k), Cost(x)) \/ NCloseT(Cost(k), Cost(x), Tol)
Optimal == Ended => \A k \in Keys \ {CKey(Cases[c].o)} : LabelOK(CNd[c], COut[c], In.pax, In.modes, Cases[c].o, Cases[c].d, Final, k)
LinesUsed == Ended => \A k \in Keys : (suc[k] # {} /\ lines[k] # "inf") => CloseL(lines[k],
                 LinesCost({e \in COut[c][k] : <<e.a, e.b>> \in suc[k]}, LAMBDA e : e.f, LAMBDA e : T(e.b, e), ThetaW(k)))
\* the label of the origin's stops includes reaching them
Expected(k) == LET n == CNd[c][k] IN
  IF n.ty = "stop" /\ n.n = Cases[c].o /\ Final[k] # "inf" THEN NAdd(Final[k], NMul(NDiv(In.modes[n.m].tat, "60"), Weight(In.pax, "pa"))) ELSE Final[k]
CodeAgrees == \A k \in Keys \ {CKey(Cases[c].o)} : CloseL(Expected(k), Cases[c].label[k])
\* a disagreement of the implementation is reported, not a failure of the model
Report == (Ended /\ ~CodeAgrees) => PrintT("@B " \o ToJson([c |-> c]))
=============================================================================
