------------------------------- MODULE Costs --------------------------------
(***************************************************************************)
(* Resources of the passengers and costs of users, operators and           *)
(* infrastructure; constraints of the optimisation.                        *)
(* tot: line node key -> [z, v, l] per vehicle                             *)
(***************************************************************************)
EXTENDS Flow

Hours(s) == NDiv(s, "3600")
\* dwell caused at a stop by boardings z and alightings v per vehicle
Dwell(m, z, v) == NMul(Hours(m.t), IF NEq(m.bya, "0") THEN NAdd(z, v) ELSE NMax(z, v))
EdgeTime(et, a, b) == et[<<a, b>>]
\* resources of one passenger on path q (after reaching the first stop)
WaitAt(in, nd, suc, k) ==
  LET m == in.modes[nd[k].m] IN NDiv(NMul(m.theta, m.d), FreqOf(in.f, nd, suc, k))
StepRes(in, nd, suc, et, tot, d, q, i) ==
  LET a == nd[q[i]]  b == nd[q[i + 1]]
  IN CASE a.ty = "stop" /\ b.ty = "line" -> [ta |-> "0", te |-> WaitAt(in, nd, suc, q[i]), tv |-> "0", t |-> "0"]
       [] a.ty = "line" /\ b.ty = "line" ->
            [ta |-> "0", te |-> "0", t |-> "0",
             tv |-> NAdd(EdgeTime(et, q[i], q[i + 1]),
                         IF i + 2 <= Len(q) /\ nd[q[i + 2]].ty = "line"
                         THEN Dwell(in.modes[b.m], tot[q[i + 1]].z, tot[q[i + 1]].v) ELSE "0")]
       [] a.ty = "line" /\ b.ty = "stop" ->
            [ta |-> "0", te |-> "0", tv |-> NMul(NMul("0.5", Hours(in.modes[a.m].t)), tot[q[i]].v),
             t |-> IF a.n = d THEN "0" ELSE "1"]
       [] a.ty = "stop" /\ b.ty = "city" -> \* leaving the last stop is not charged
            [ta |-> IF a.n = d THEN "0" ELSE NDiv(in.modes[a.m].tat, "60"), te |-> "0", tv |-> "0", t |-> "0"]
       [] OTHER -> [ta |-> NDiv(in.modes[b.m].tat, "60"), te |-> "0", tv |-> "0", t |-> "0"]
AddRes(r, s) == [ta |-> NAdd(r.ta, s.ta), te |-> NAdd(r.te, s.te), tv |-> NAdd(r.tv, s.tv), t |-> NAdd(r.t, s.t)]
TimesRes(x, r) == [ta |-> NMul(x, r.ta), te |-> NMul(x, r.te), tv |-> NMul(x, r.tv), t |-> NMul(x, r.t)]
ZeroRes == [ta |-> "0", te |-> "0", tv |-> "0", t |-> "0"]
PathRes(in, nd, suc, et, tot, d, q) ==
  FoldLeft(LAMBDA acc, i : AddRes(acc, StepRes(in, nd, suc, et, tot, d, q, i)), ZeroRes, [i \in 1..(Len(q) - 1) |-> i])
\* reaching the stop of the origin: mode access time, and the walk across the stripe
FirstAccess(in, width, m, pct) ==
  NAdd(NDiv(m.tat, "60"), NDiv(NMul(NDiv(pct, "100"), width), NMul(NMul("4", in.pax.va), m.d)))
Resources(in, nd, pos, et, trips, succ, tot) ==
  LET one(tr) ==
        FoldLeft(LAMBDA acc, s :
          LET vs == NDiv(NMul(tr.v, s.pct), "100")
              suc == succ[<<tr.o, tr.d>>]
          IN IF NEq(vs, "0") THEN acc
             ELSE FoldLeft(LAMBDA a2, q : AddRes(a2, TimesRes(NMul(vs, ShareOf(in.f, nd, suc, q, 1)), PathRes(in, nd, suc, et, tot, tr.d, q))),
                    [acc EXCEPT !.ta = NAdd(@, NMul(vs, FirstAccess(in, pos[tr.o].width, in.modes[nd[s.s].m], s.pct)))], s.paths),
          ZeroRes, tr.stops)
  IN FoldLeft(LAMBDA acc, tr : AddRes(acc, one(tr)), ZeroRes, trips)
UsersCostOf(pax, r) ==
  NAdd(NAdd(NMul(r.ta, pax.spa), NMul(r.te, pax.spw)), NAdd(NMul(r.tv, pax.spv), NMul(NDiv(NMul(r.t, pax.spt), "60"), pax.spv)))

(*-------------------------------- operators ------------------------------*)
TravelTime(in, pos, r) == NDiv(NAdd(WholeLength(pos, r.ni), WholeLength(pos, r.nr)), in.modes[r.mode].v)
CycleTime(in, nd, pos, tot, r) ==
  LET m == in.modes[r.mode]
      ks == {k \in DOMAIN tot : nd[k].r = r.id}
  IN NAdd(TravelTime(in, pos, r), NSumSet([k \in ks |-> Dwell(m, tot[k].z, tot[k].v)], ks))
UnitCost(m, k) == NAdd(m.co, NMul(m.c1, k))
RouteCost(in, r, k, tc) == NMul(NMul(UnitCost(in.modes[r.mode], k), in.f[r.id]), tc)

(*------------------------------ infrastructure ---------------------------*)
Links(q) == {<<q[i], q[i + 1]>> : i \in 1..(Len(q) - 1)}
Drives(r) == Links(r.ni) \cup Links(r.nr)
Corridors(in, tag) ==
  {{l[1], l[2]} : l \in UNION {Drives(r) : r \in {x \in Routes(in) : x.mode = tag /\ ~NEq(in.f[x.id], "0")}}}
CorridorLength(pos, c) == LET a == CHOOSE x \in c : TRUE  b == CHOOSE x \in c : x # a IN EDist(pos[a], pos[b])
ModeLength(in, pos, tag) == LET cs == Corridors(in, tag) IN NMul(in.modes[tag].d, NSumSet([c \in cs |-> CorridorLength(pos, c)], cs))
InfraCost(in, pos) == LET ts == DOMAIN in.modes IN NSumSet([t \in ts |-> NMul(in.modes[t].c2, ModeLength(in, pos, t))], ts)

(*------------------------------- constraints -----------------------------*)
SizeExcess(in, tot, nd, r) == NSub(MostLoaded(tot, nd, r.id), in.modes[r.mode].kmax)
LinkExcess(in, l, tag) ==
  LET m == in.modes[tag]
      rs == {x \in Routes(in) : x.mode = tag}
      uses(r) == (IF l \in Links(r.ni) THEN 1 ELSE 0) + (IF l \in Links(r.nr) THEN 1 ELSE 0)
  IN NSub(NSumSet([r \in rs |-> NMul(NInt(uses(r)), NDiv(in.f[r.id], m.d))], rs), NDiv(m.fmax, m.d))
CloseN(a, b) == NCloseT(a, b, "1e-7")
SameBag(p, q) == /\ Len(p) = Len(q)
                 /\ \A i \in 1..Len(p) : Cardinality({j \in 1..Len(p) : CloseN(p[j], p[i])}) = Cardinality({j \in 1..Len(q) : CloseN(q[j], p[i])})
=============================================================================
