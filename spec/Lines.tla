------------------------------- MODULE Lines -------------------------------
(***************************************************************************)
(* Routes and the transport network registry.                              *)
(*   route: [id, mode, type, ni, nr, si, sr]  node/stop sequences (ids)    *)
(*          type in {"CUSTOM", "PREDEFINED", "CIRCULAR"}; mode is a tag    *)
(*   network: [modes: sequence of [name, tag, d], routes: sequence]        *)
(***************************************************************************)
EXTENDS Modes, TLC

RangeOf(q) == {q[i] : i \in 1..Len(q)}
Distinct(q) == \A i, j \in 1..Len(q) : i # j => q[i] # q[j]
Backwards(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]

(*----------------------------- custom routes -----------------------------*)
DirectionErrors(n, st) ==
     (IF n = <<>> THEN {"NodeSequencesIsNotValidException"} ELSE {})
\cup (IF st = <<>> THEN {"StopSequenceIsNotValidException"} ELSE {})
\cup (IF RangeOf(st) \subseteq RangeOf(n) THEN {} ELSE {"StopsSequencesException"})
\cup (IF n = <<>> \/ st = <<>> \/ st[1] = n[1] THEN {} ELSE {"FirstStopIsNotValidException"})
\cup (IF n = <<>> \/ st = <<>> \/ st[Len(st)] = n[Len(n)] THEN {} ELSE {"LastStopIsNotValidException"})
\cup (IF Distinct(n) THEN {} ELSE {"NodeSequencesIsNotValidException"})
CycleErrors(ni, nr) ==
  IF ni = <<>> \/ nr = <<>> THEN {}
  ELSE IF ni[1] = nr[Len(nr)] /\ nr[1] = ni[Len(ni)] THEN {} ELSE {"NotCycleException"}
RouteErrors(ni, nr, si, sr) == DirectionErrors(ni, si) \cup DirectionErrors(nr, sr) \cup CycleErrors(ni, nr)
\* stops out of travelling order or repeated: the specification does not say
Ordered(n, st) == \A i, j \in 1..Len(st) : i < j =>
   \E a, b \in 1..Len(n) : a < b /\ n[a] = st[i] /\ n[b] = st[j]
RouteOpen(ni, nr, si, sr) == ~(Ordered(ni, si) /\ Ordered(nr, sr))

(*------------------------------- registry --------------------------------*)
ModeTags(net) == {net.modes[i].tag : i \in 1..Len(net.modes)}
RouteIds(net) == {net.routes[i].id : i \in 1..Len(net.routes)}
AddModeErrors(net, m) ==
  IF m.tag \in ModeTags(net) THEN {}
  ELSE (IF m.name \in {net.modes[i].name : i \in 1..Len(net.modes)} THEN {"AddModeExceptions"} ELSE {})
  \cup (IF Usable(Append(net.modes, m)) THEN {} ELSE {"TransportNetworkException", "TransportModeException"})
AddModeEffect(net, m) == IF m.tag \in ModeTags(net) THEN net ELSE [net EXCEPT !.modes = Append(@, m)]
RemoveModeEffect(net, tag) ==
  [modes |-> SelectSeq(net.modes, LAMBDA m : m.tag # tag), routes |-> SelectSeq(net.routes, LAMBDA r : r.mode # tag)]
PathOK(edges, q) == \A i \in 1..(Len(q) - 1) : <<q[i], q[i + 1]>> \in edges
AddRouteErrors(net, edges, r, m) ==
     (IF PathOK(edges, r.ni) /\ PathOK(edges, r.nr) THEN {} ELSE {"NodeSequencesIsNotValidException"})
\cup (IF r.id \in RouteIds(net) THEN {"RouteIdDuplicatedException"} ELSE {})
\cup AddModeErrors(net, m)
AddRouteEffect(net, r, m) == [AddModeEffect(net, m) EXCEPT !.routes = Append(@, r)]
RemoveRouteErrors(net, id) == IF id \in RouteIds(net) THEN {} ELSE {"RouteIdNotFoundException"}
RemoveRouteEffect(net, id) == [net EXCEPT !.routes = SelectSeq(@, LAMBDA r : r.id # id)]
RouteById(net, id) == net.routes[CHOOSE i \in 1..Len(net.routes) : net.routes[i].id = id]

\* invariants of the registry
NetworkOK(net, edges) ==
  /\ Cardinality(RouteIds(net)) = Len(net.routes)
  /\ Cardinality(ModeTags(net)) = Len(net.modes)
  /\ \A i \in 1..Len(net.routes) : /\ net.routes[i].mode \in ModeTags(net)
                                   /\ PathOK(edges, net.routes[i].ni) /\ PathOK(edges, net.routes[i].nr)
  /\ Len(net.modes) \in 0..2

(*---------------------------- route families -----------------------------*)
\* zs: sequence of zones [id, p, sc]; cbd: id.  A family is a set of routes without mode tag.
Rt(id, type, ni, nr, si, sr) == [id |-> id, type |-> type, ni |-> ni, nr |-> nr, si |-> si, sr |-> sr]
Both(id, ns, stops) == Rt(id, "PREDEFINED", ns, Backwards(ns), stops, Backwards(stops))
Ends(q) == <<q[1], q[Len(q)]>>
Label(pre, mode, z) == SCat(SCat(SCat(pre, "_"), SCat(mode, "_")), ToString(z))

Circular(zs, cbd, mode) ==
  LET n == Len(zs)
      i == [k \in 1..(n + 1) |-> zs[((k - 1) % n) + 1].sc]
      r == [k \in 1..(n + 1) |-> zs[IF k = n + 1 THEN n ELSE n + 1 - k].sc]
  IN {Rt(SCat("CIR_I_", mode), "CIRCULAR", i, <<>>, i, <<>>), Rt(SCat("CIR_R_", mode), "CIRCULAR", <<>>, r, <<>>, r)}
Feeder(zs, cbd, mode) ==
  {LET q == <<zs[k].p, zs[k].sc>> IN Both(Label("F", mode, zs[k].id), q, q) : k \in 1..Len(zs)}
Radial(zs, cbd, mode, short, express) ==
  {LET q == IF short THEN <<zs[k].sc, cbd>> ELSE <<zs[k].p, zs[k].sc, cbd>>
       pre == IF short THEN "RS" ELSE IF express THEN "RE" ELSE "R"
   IN Both(Label(pre, mode, zs[k].id), q, IF express THEN Ends(q) ELSE q) : k \in 1..Len(zs)}
JumpOK(zs, jump) == NIsInt(jump) /\ NLe("1", jump) /\ NLe(NMul("2", jump), NInt(Len(zs)))
\* origins of the routes: every zone, or half of them when jump joins opposite zones
Origins(zs, jump) == IF 2 * jump = Len(zs) THEN 1..jump ELSE 1..Len(zs)
Zone(zs, k) == zs[((k - 1) % Len(zs)) + 1]
Prefix(letter, short, express, jump) ==
  SCat(SCat(SCat(letter, IF short THEN "S" ELSE ""), IF express THEN "E" ELSE ""), ToString(jump))
Diametral(zs, cbd, mode, jump, short, express) ==
  {LET a == Zone(zs, k)  b == Zone(zs, k + jump)
       q == IF short THEN <<a.sc, cbd, b.sc>> ELSE <<a.p, a.sc, cbd, b.sc, b.p>>
   IN Both(Label(Prefix("D", short, express, jump), mode, a.id), q, IF express THEN Ends(q) ELSE q)
   : k \in Origins(zs, jump)}
Tangential(zs, cbd, mode, jump, short, express) ==
  {LET a == Zone(zs, k)  b == Zone(zs, k + jump)
       ring == [i \in 1..(jump + 1) |-> Zone(zs, k + i - 1).sc]
       q == IF short THEN ring ELSE <<a.p>> \o ring \o <<b.p>>
   IN Both(Label(Prefix("T", short, express, jump), mode, a.id), q, IF express THEN Ends(q) ELSE q)
   : k \in Origins(zs, jump)}
FamilyErrors(f, zs, jump) ==
  IF f = "circular" THEN IF Len(zs) <= 1 THEN {"CircularRouteIsNotValidException"} ELSE {}
  ELSE IF f \in {"diametral", "tangencial"} THEN IF JumpOK(zs, jump) THEN {} ELSE {"JumpIsNotValidException"} ELSE {}
Family(f, zs, cbd, mode, jump, short, express) ==
  CASE f = "circular" -> Circular(zs, cbd, mode)
    [] f = "feeder" -> Feeder(zs, cbd, mode)
    [] f = "radial" -> Radial(zs, cbd, mode, short, express)
    [] f = "diametral" -> Diametral(zs, cbd, mode, NToInt(jump), short, express)
    [] f = "tangencial" -> Tangential(zs, cbd, mode, NToInt(jump), short, express)
=============================================================================
