------------------------------ MODULE Strategy ------------------------------
(***************************************************************************)
(* Optimal strategies (hyperpaths) towards one destination.                *)
(* nd: key -> node record;  out: key -> set of outgoing edges;             *)
(* pax: passenger;  modes: tag -> attributes;  o, d: ids of the city nodes *)
(* A strategy assigns to every node one outgoing link, or to a stop a set  *)
(* of boarding links (the attractive lines).                               *)
(***************************************************************************)
EXTENDS Extended

Weight(pax, k) == NDiv(pax[k], pax.pv)
\* perceived cost of a link, in in-vehicle hours
LinkCost(nd, pax, d, e) ==
  CASE e.ty = "ALIGHTING" -> IF nd[e.b].n = d THEN "0" ELSE e.t
    [] e.ty = "ACCESS" -> NMul(e.t, Weight(pax, "pa"))
    [] OTHER -> e.t
\* links usable by travellers from o to d: a traveller does not come back to the origin place
Usable4(e, o) == e.a # CKey(o) /\ e.b # CKey(o)
Plain(e) == e.ty # "BOARDING"
Via(lab, nd, pax, d, e) == NAdd(LinkCost(nd, pax, d, e), lab[e.b])

\* expected cost at a stop of using the lines A (all with positive frequency): (theta w + sum f t) / sum f
LinesCost(A, F(_), T(_), thetaw) ==
  LET sf == NSumSet([e \in A |-> F(e)], A)
  IN NDiv(NAdd(thetaw, NSumSet([e \in A |-> NMul(F(e), T(e))], A)), sf)
\* W is the cost of the best set of lines: sum f max(0, W - t) = theta w (theta > 0), or min t (theta = 0)
Slack(W, B, F(_), T(_)) == NSumSet([e \in B |-> IF NLt(T(e), W) THEN NMul(F(e), NSub(W, T(e))) ELSE "0"], B)
BestLines(W, B, F(_), T(_), thetaw, tol) ==
  IF NEq(thetaw, "0") THEN (\E e \in B : NCloseT(W, T(e), tol)) /\ \A e \in B : NLe(W, T(e)) \/ NCloseT(W, T(e), tol)
  ELSE LET hi == NAdd(W, NMul(tol, NAdd("1", W)))  lo == NSub(W, NMul(tol, NAdd("1", W)))
       IN NLe(Slack(lo, B, F, T), thetaw) /\ NLe(thetaw, Slack(hi, B, F, T))
Tol == "1e-8"
CloseL(a, b) == (a = "inf" /\ b = "inf") \/ (a # "inf" /\ b # "inf" /\ NCloseT(a, b, Tol))
MinOf(S) == IF S = {} THEN "inf" ELSE CHOOSE x \in S : \A y \in S : NLe(x, y)

\* is lab[k] the best that can be done at node k, given the labels of the other nodes?
LabelOK(nd, out, pax, modes, o, d, lab, k) ==
  LET n == nd[k]
      es == {e \in out[k] : Usable4(e, o)}
      T(e) == Via(lab, nd, pax, d, e)
      F(e) == e.f
      plain == MinOf({T(e) : e \in {x \in es : Plain(x)}})
  IN IF k = CKey(d) THEN NEq(lab[k], "0")
     ELSE IF n.ty # "stop" THEN CloseL(lab[k], plain)
     ELSE LET B == {e \in es : ~Plain(e) /\ NLt("0", e.f) /\ T(e) # "inf"}
              w == NMul(modes[n.m].theta, Weight(pax, "pw"))
          IN IF B = {} THEN CloseL(lab[k], plain)
             ELSE IF lab[k] = "inf" THEN FALSE
             ELSE \/ BestLines(lab[k], B, F, T, w, Tol) /\ (NLe(lab[k], plain) \/ CloseL(lab[k], plain))
                  \/ CloseL(lab[k], plain) /\ (IF NEq(w, "0") THEN \A e \in B : NLe(lab[k], T(e)) \/ CloseL(lab[k], T(e))
                                               ELSE NLe(Slack(lab[k], B, F, T), NAdd(w, NMul(Tol, NAdd("1", w)))))

\* are the retained links an optimal choice at k (ties allowed either way)?
ChoiceOK(nd, out, pax, modes, o, d, lab, suc, k) ==
  LET n == nd[k]
      es == {e \in out[k] : Usable4(e, o)}
      T(e) == Via(lab, nd, pax, d, e)
      F(e) == e.f
      my == {e \in out[k] : <<e.a, e.b>> \in suc}
      one == Cardinality(my) = 1 /\ \A e \in my : Plain(e) /\ e \in es /\ CloseL(T(e), lab[k])
      B == {e \in es : ~Plain(e) /\ NLt("0", e.f)}
  IN IF lab[k] = "inf" \/ k = CKey(d) THEN my = {}
     ELSE IF n.ty # "stop" THEN one
     ELSE \/ one
          \/ /\ my # {} /\ my \subseteq B
             /\ \A e \in my : NLe(T(e), lab[k]) \/ CloseL(T(e), lab[k])
             /\ \A e \in B \ my : NLe(lab[k], T(e)) \/ CloseL(T(e), lab[k])
             /\ CloseL(LinesCost(my, F, T, NMul(modes[n.m].theta, Weight(pax, "pw"))), lab[k])
ChosenFreq(out, suc, k) == LET A == {e \in out[k] : <<e.a, e.b>> \in suc /\ e.ty = "BOARDING"} IN NSumSet([e \in A |-> e.f], A)

\* following the strategy always ends at the destination
RECURSIVE Grounded(_, _, _)
Grounded(G, rest, suc) ==
  LET new == {k \in rest : suc[k] # {} /\ \A x \in suc[k] : x[2] \in G}
  IN IF new = {} THEN G ELSE Grounded(G \cup new, rest \ new, suc)

\* places from which d can be reached at all, going backwards
RECURSIVE Reach(_, _, _)
Reach(R, frontier, es) ==
  IF frontier = {} THEN R
  ELSE LET new == {e.a : e \in {x \in es : x.b \in frontier}} \ R IN Reach(R \cup new, new, es)
Reaching(edges, o, d) == Reach({CKey(d)}, {CKey(d)}, {e \in edges : Usable4(e, o) /\ (Plain(e) \/ NLt("0", e.f))})

\* elementary paths of a strategy from node k to the destination
RECURSIVE PathsFrom(_, _, _, _)
PathsFrom(suc, k, d, fuel) ==
  IF k = CKey(d) THEN {<<k>>}
  ELSE IF fuel = 0 THEN {}
  ELSE UNION {{<<k>> \o q : q \in PathsFrom(suc, x[2], d, fuel - 1)} : x \in suc[k]}
=============================================================================
