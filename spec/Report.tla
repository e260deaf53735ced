------------------------------- MODULE Report -------------------------------
(***************************************************************************)
(* The two reports of an optimised network.                                *)
(***************************************************************************)
EXTENDS Costs

Hundredth(text, x) == NIsNum(text) /\ NLe(NSub(text, x), "0.0050001") /\ NLe(NSub(x, text), "0.0050001")
Ratio(a, b) == IF NEq(b, "0") THEN "0" ELSE NDiv(a, b)

(*----------------------------- one row per route -------------------------*)
\* load on the section leaving node i of q: what is on board after the last call at or before i
LastCall(r, dir, i) ==
  LET q == Nodes(r, dir)  st == RangeOf(Stops(r, dir))
      S == {j \in 1..i : q[j] \in st}
  IN q[CHOOSE j \in S : \A x \in S : x <= j]
SectionLoad(r, dir, tot, i) == tot[LKey(r.id, dir, LastCall(r, dir, i))].l
Sections(r, dir, tot, k, zero) ==
  LET q == Nodes(r, dir)
  IN [i \in 1..(IF q = <<>> THEN 0 ELSE Len(q) - 1) |-> <<q[i], q[i + 1], IF zero THEN "0" ELSE Ratio(SectionLoad(r, dir, tot, i), k)>>]
SameTable(a, b) == /\ Len(a) = Len(b)
                   /\ \A i \in 1..Len(a) : a[i][1] = b[i][1] /\ a[i][2] = b[i][2] /\ NCloseT(a[i][3], b[i][3], "1e-6")
RowFails(in, nd, pos, tot, r, row) ==
  LET zero == ~NLt("0", in.f[r.id])
      f == in.f[r.id]
      k == MostLoaded(tot, nd, r.id)
      tc == CycleTime(in, nd, pos, tot, r)
      ks == {x \in DOMAIN tot : nd[x].r = r.id}
      boards == NSumSet([x \in ks |-> tot[x].z], ks)
      si == Sections(r, "I", tot, k, zero)
      sr == Sections(r, "R", tot, k, zero)
      all == {si[i][3] : i \in 1..Len(si)} \cup {sr[i][3] : i \in 1..Len(sr)}
      Z(x) == IF zero THEN "0" ELSE x
  IN (IF CloseN(row.F, Z(f)) THEN {} ELSE {"row_frequency"})
  \cup (IF CloseN(row.f, Z(NDiv(f, in.modes[r.mode].d))) THEN {} ELSE {"row_frequency_per_line"})
  \cup (IF CloseN(row.k, Z(k)) THEN {} ELSE {"row_vehicle_size"})
  \cup (IF CloseN(row.b, Z(NMul(f, tc))) THEN {} ELSE {"row_fleet"})
  \cup (IF CloseN(row.tc, Z(NMul("60", tc))) THEN {} ELSE {"row_cycle_time"})
  \cup (IF CloseN(row.co, Z(Ratio(NMul(UnitCost(in.modes[r.mode], k), tc), boards))) THEN {} ELSE {"row_cost_per_passenger"})
  \cup (IF SameTable(row.ti, si) THEN {} ELSE {"row_sections_I"})
  \cup (IF SameTable(row.tr, sr) THEN {} ELSE {"row_sections_R"})
  \cup (IF NCloseT(row.min, Z(MinOf(all)), "1e-6") THEN {} ELSE {"row_min_load"})
ReportHeader == <<"route_id", "F[veh/hr]", "f[veh/hr-line]", "k[pax/veh]", "B[veh]", "tc[min]", "CO[US$/hr-pax]", "load_min", "sub_table_i", "sub_table_r">>
TextRowOK(t, row) == /\ t.id = row.id
                     /\ Hundredth(t.F, row.F) /\ Hundredth(t.f, row.f) /\ Hundredth(t.k, row.k) /\ Hundredth(t.b, row.b)
                     /\ Hundredth(t.tc, row.tc) /\ Hundredth(t.co, row.co) /\ Hundredth(t.min, row.min)
                     /\ SameTable(t.ti, row.ti) /\ SameTable(t.tr, row.tr)

(*-------------------------------- overall --------------------------------*)
Running(in, tag) == {r \in Routes(in) : r.mode = tag /\ NLt("0", in.f[r.id])}
Overall(in, nd, pos, tot, res, trips) ==
  LET rs == Routes(in)
      co == NSumSet([x \in rs |-> RouteCost(in, x, MostLoaded(tot, nd, x.id), CycleTime(in, nd, pos, tot, x))], rs)
      ci == InfraCost(in, pos)
      cu == UsersCostOf(in.pax, res)
      tags == {t \in DOMAIN in.modes : Running(in, t) # {}}
      per(x) == NDiv(x, trips)
  IN [VRC |-> per(NAdd(NAdd(co, ci), cu)), co |-> per(co), ci |-> per(ci), cu |-> per(cu),
      tv |-> NMul("60", per(res.tv)), te |-> NMul("60", per(res.te)), ta |-> NMul("60", per(res.ta)), t |-> per(res.t),
      B |-> [t \in tags |-> NSumSet([x \in Running(in, t) |-> NMul(in.f[x.id], CycleTime(in, nd, pos, tot, x))], Running(in, t))],
      K |-> [t \in tags |-> NDiv(NSumSet([x \in Running(in, t) |-> MostLoaded(tot, nd, x.id)], Running(in, t)), NInt(Cardinality(Running(in, t))))],
      L |-> [t \in tags |-> NMul(NInt(Cardinality(Running(in, t))), in.modes[t].d)]]
Figures == {"VRC", "co", "ci", "cu", "tv", "te", "ta", "t"}
OverallFails(want, got) ==
  {SCat("overall_", x) : x \in {y \in Figures : ~CloseN(want[y], got[y])}}
  \cup (IF CloseN(got.VRC, NAdd(NAdd(got.co, got.ci), got.cu)) THEN {} ELSE {"overall_does_not_add_up"})
  \cup UNION {IF DOMAIN got[m] = DOMAIN want[m] /\ \A t \in DOMAIN want[m] : CloseN(want[m][t], got[m][t]) THEN {} ELSE {SCat("by_mode_", m)} : m \in {"B", "K", "L"}}
\* val: figures read from the text, B/K/L by mode tag
OverallTextFails(res, val) ==
  {SCat("text_", x) : x \in {y \in Figures : ~Hundredth(val[y], res[y])}}
  \cup (IF Hundredth(val.total, NAdd(NAdd(res.tv, res.ta), res.te)) THEN {} ELSE {"text_total_time"})
  \cup UNION {IF DOMAIN val[m] = DOMAIN res[m] /\ \A t \in DOMAIN res[m] : Hundredth(val[m][t], res[m][t]) THEN {} ELSE {SCat("text_by_mode_", m)} : m \in {"B", "K", "L"}}
=============================================================================
