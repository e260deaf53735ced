-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* From strategies to passengers: split of a pair over the stops of its    *)
(* origin, and flows over the paths of the strategies.                     *)
(***************************************************************************)
EXTENDS Strategy, SequencesExt

(*------------------- two competing stops of the origin -------------------*)
\* Travellers are uniformly spread over a stripe of width p centred on the stop
\* of the one-line mode 1; mode 2 has d lines at equally spaced positions.
\* A traveller at distance x walks to the stop with the lower walk + label.
LinePos(p, d) == {NDiv(NMul(NInt(2 * k - 1 - d), p), NInt(2 * d)) : k \in 1..d}
RightPos(p, d) == {x \in LinePos(p, d) : NLt("0", x)}
\* share (%) of mode 1 when label1 <= label2: dd = walk equivalent to label2 - label1
ShareNear(p, d, dd) ==
  LET beyond == {x \in RightPos(p, d) : NLt(dd, x)}
  IN IF NLe(NDiv(p, "2"), dd) \/ beyond = {} THEN "100"
     ELSE NMul("100", NDiv(NAdd(MinOf(beyond), dd), p))
\* share of mode 1 when label2 < label1: dd = walk equivalent to label1 - label2
ShareFar(p, d, dd) ==
  IF d % 2 = 1 THEN "0"
  ELSE LET x == MinOf(RightPos(p, d)) IN IF NLe(x, dd) THEN "0" ELSE NMul("100", NDiv(NSub(x, dd), p))
WalkOf(dl, vp, pa, pv) == NDiv(NMul(vp, dl), NDiv(pa, pv))
\* The admissible shares of mode 1: more than one only when the labels tie, or when the
\* indifference point falls on the position of a line (either side of the tie is a best choice).
\* e: slack of the walk (rounding of the labels, which are far larger than their difference when lines are rare).
WalkSlack(l1, l2, p, dd, vp, pa, pv) == NAdd(NMul("1e-9", NAdd(p, dd)), WalkOf(NMul("2e-15", NAdd(l1, l2)), vp, pa, pv))
Near3(p, d, dd, e) == {ShareNear(p, d, dd), ShareNear(p, d, NAdd(dd, e)), ShareNear(p, d, NMax("0", NSub(dd, e)))}
Far3(p, d, dd, e) == {ShareFar(p, d, dd), ShareFar(p, d, NAdd(dd, e)), ShareFar(p, d, NMax("0", NSub(dd, e)))}
\* is pct an admissible share of mode 1?
ShareOK(pct, l1, l2, d2, p, vp, pa, pv) ==
  LET dn == WalkOf(NMax("0", NSub(l2, l1)), vp, pa, pv)
      df == WalkOf(NMax("0", NSub(l1, l2)), vp, pa, pv)
      e == WalkSlack(l1, l2, p, NMax(dn, df), vp, pa, pv)
      near == Near3(p, d2, dn, e)
      far == Far3(p, d2, df, e)
      sh == IF NEq(l1, l2) THEN near ELSE IF NCloseT(l1, l2, "1e-12") THEN near \cup far
            ELSE IF NLe(l1, l2) THEN near ELSE far
      tol == NAdd("1e-6", NMul("100", NDiv(e, p)))
  IN \E x \in sh : NLe(NSub(pct, x), tol) /\ NLe(NSub(x, pct), tol)

(*------------------------- passengers over paths -------------------------*)
\* path: sequence of node keys from a stop of the origin to the destination city node
\* steps of a path with boarding: share of the line among the retained lines of the stop
FreqOf(f, nd, suc, k) == NSum([i \in 1..Len(SetToSeq(suc[k])) |-> f[nd[SetToSeq(suc[k])[i][2]].r]])
RECURSIVE ShareOf(_, _, _, _, _)
ShareOf(f, nd, suc, q, i) ==
  IF i >= Len(q) THEN "1"
  ELSE LET rest == ShareOf(f, nd, suc, q, i + 1)
       IN IF nd[q[i]].ty = "stop" /\ nd[q[i + 1]].ty = "line"
          THEN NMul(rest, NDiv(f[nd[q[i + 1]].r], FreqOf(f, nd, suc, q[i]))) ELSE rest
\* trips: sequence of [o, d, v, stops: seq of [s, pct, paths]], succ: <<o, d>> -> suc.  One record per path.
PathFlows(f, nd, trips, succ) ==
  FlattenSeq([i \in 1..Len(trips) |->
    FlattenSeq([j \in 1..Len(trips[i].stops) |->
      LET tr == trips[i]  s == tr.stops[j]
          vs == NDiv(NMul(tr.v, s.pct), "100")
      IN IF NEq(vs, "0") THEN <<>>
         ELSE [k \in 1..Len(s.paths) |-> [q |-> s.paths[k], x |-> NMul(vs, ShareOf(f, nd, succ[<<tr.o, tr.d>>], s.paths[k], 1)), d |-> tr.d]]])])
\* contributions of a path to its line nodes: [k: line node, w: "z" | "v" | "l", x: passengers]
Contrib(nd, pf) ==
  FlattenSeq([i \in 1..(Len(pf.q) - 1) |->
    LET a == nd[pf.q[i]].ty  b == nd[pf.q[i + 1]].ty
    IN IF a = "stop" /\ b = "line" THEN <<[k |-> pf.q[i + 1], w |-> "z", x |-> pf.x]>>
       ELSE IF a = "line" /\ b = "stop" THEN <<[k |-> pf.q[i], w |-> "v", x |-> pf.x]>>
       ELSE IF a = "line" /\ b = "line" THEN <<[k |-> pf.q[i], w |-> "l", x |-> pf.x]>> ELSE <<>>])
\* per vehicle: divided by the frequency of the route
Totals(f, nd, pfs) ==
  LET lines == {k \in DOMAIN nd : nd[k].ty = "line"}
      zero == [k \in lines |-> [z |-> "0", v |-> "0", l |-> "0"]]
      cs == FlattenSeq([i \in 1..Len(pfs) |-> Contrib(nd, pfs[i])])
      sum == FoldLeft(LAMBDA acc, c : [acc EXCEPT ![c.k] = [@ EXCEPT ![c.w] = NAdd(@, c.x)]], zero, cs)
      per(x, k) == IF NEq(f[nd[k].r], "0") THEN x ELSE NDiv(x, f[nd[k].r])
  IN [k \in lines |-> [z |-> per(sum[k].z, k), v |-> per(sum[k].v, k), l |-> per(sum[k].l, k)]]
MostLoaded(tot, nd, rid) == NMaxSet([k \in {x \in DOMAIN tot : nd[x].r = rid} |-> tot[k].l], {x \in DOMAIN tot : nd[x].r = rid})
=============================================================================
