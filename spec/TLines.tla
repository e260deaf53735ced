------------------------------- MODULE TLines ------------------------------
(* Validation of recorded network sessions, route constructions, families   *)
(* and exports.                                                             *)
EXTENDS TraceBase, Lines

St == [edges |-> {}, zs |-> <<>>, cbd |-> "0", net |-> [modes |-> <<>>, routes |-> <<>>]]
City(e) == [edges |-> {<<e.edges[i][1], e.edges[i][2]>> : i \in 1..Len(e.edges)}, zs |-> e.zones, cbd |-> e.cbd,
            net |-> [modes |-> <<>>, routes |-> <<>>]]
NoName(ms) == [i \in 1..Len(ms) |-> ms[i].tag]
Key(r) == <<r.id, r.mode, r.ni, r.nr, r.si, r.sr>>
Keys(rs) == [i \in 1..Len(rs) |-> Key(rs[i])]
NetOK(e, net, pre) == C(pre \o "_modes", NoName(e.modes) = NoName(net.modes))
                 \cup C(pre \o "_routes", Keys(e.routes) = Keys(net.routes))

JudgeC09(s0, e) ==
  LET step(er, net1, extra) ==
        LET nn == IF er = {} THEN net1 ELSE s0.net
        IN Verdict([s0 EXCEPT !.net = nn],
             C(e.op \o "_outcome", IF er = {} THEN e.outcome = "ok" ELSE e.outcome \in er)
             \cup NetOK(e, nn, IF er = {} THEN e.op ELSE "rejected_" \o e.op) \cup (IF er = {} THEN extra ELSE {})
             \cup C("registry_consistent", NetworkOK(nn, s0.edges)))
  IN CASE e.op = "city" -> Verdict(City(e), {})
       [] e.op = "addmode" -> step(AddModeErrors(s0.net, e.m), AddModeEffect(s0.net, e.m), {})
       [] e.op = "removemode" -> step({}, RemoveModeEffect(s0.net, e.m.tag), {})
       [] e.op = "addroute" -> step(AddRouteErrors(s0.net, s0.edges, e.r, e.m), AddRouteEffect(s0.net, e.r, e.m), {})
       [] e.op = "removeroute" -> step(RemoveRouteErrors(s0.net, e.id), RemoveRouteEffect(s0.net, e.id), {})
       [] e.op = "getroute" -> step(RemoveRouteErrors(s0.net, e.id), s0.net,
              IF e.id \in RouteIds(s0.net) THEN C("lookup", Key(e.got) = Key(RouteById(s0.net, e.id))) ELSE {})
       [] e.op = "addbad" -> step({"RouteIsNotvalidException"}, s0.net, {})
       [] e.op = "addbadmode" -> step({"ModeIsNotValidException"}, s0.net, {})
       [] OTHER -> Verdict(s0, {})

JudgeC10(s0, e) ==
  CASE e.op = "route" ->
         LET er == RouteErrors(e.ni, e.nr, e.si, e.sr)
                   \cup (IF e.hasId THEN {} ELSE {"RouteIdIsNotValidException"}) \cup (IF e.hasMode THEN {} ELSE {"ModeIsNotValidException"})
             open == er = {} /\ RouteOpen(e.ni, e.nr, e.si, e.sr)
         IN Verdict(s0,
              (IF open THEN {} ELSE IF er = {} THEN C("wellformed_rejected", e.outcome = "ok")
               ELSE IF e.outcome = "ok" THEN {"malformed_accepted"} ELSE C("documented_error", e.outcome \in er))
              \cup (IF e.outcome # "ok" THEN {} ELSE
                    C("reported_sequences", e.r.ni = e.ni /\ e.r.nr = e.nr /\ e.r.si = e.si /\ e.r.sr = e.sr)
                    \cup C("reported_identity", e.r.id = e.id /\ e.r.mode = e.mode)))
    [] e.op = "text" ->    \* sequence text -> list -> text
         LET f == IF e.text = "" THEN <<>> ELSE SSplit(e.text, ",")
             ok == \A i \in 1..Len(f) : NIsInt(f[i])
         IN Verdict(s0, IF ok THEN C("text_read", e.outcome = "ok" /\ e.list = [i \in 1..Len(f) |-> ToString(NToInt(STrim(f[i])))])
                                   \cup C("text_written", e.outcome = "ok" => e.back = e.canon)
                        ELSE C("bad_text_accepted", e.outcome # "ok"))
    [] OTHER -> Verdict(s0, {})

Bare(r) == Rt(r.id, r.type, r.ni, r.nr, r.si, r.sr)
JudgeC11(s0, e) ==
  CASE e.op = "city" -> Verdict(City(e), {})
    [] e.op = "family" ->
         LET er == FamilyErrors(e.f, s0.zs, e.jump) \cup (IF e.badmode THEN {"ModeIsNotValidException"} ELSE {})
         IN Verdict(s0,
              IF er # {} THEN C("family_error", e.outcome \in er \/ (~NIsNum(e.jump) /\ e.outcome # "ok"))
              ELSE IF e.outcome # "ok" THEN {"family_rejected"}
              ELSE LET want == Family(e.f, s0.zs, s0.cbd, e.name, e.jump, e.short, e.express)
                       got == {Bare(e.routes[i]) : i \in 1..Len(e.routes)}
                   IN C("routes_of_family", {<<r.ni, r.nr, r.si, r.sr>> : r \in got} = {<<r.ni, r.nr, r.si, r.sr>> : r \in want})
                 \cup C("ids_of_family", {<<r.id, r.ni, r.nr>> : r \in got} = {<<r.id, r.ni, r.nr>> : r \in want})
                 \cup C("type_of_family", got = want)
                 \cup C("each_once", Len(e.routes) = Cardinality(want))
                 \cup C("mode_of_routes", \A i \in 1..Len(e.routes) : e.routes[i].mode = e.modetag)
                 \cup C("over_existing_links", \A i \in 1..Len(e.routes) : PathOK(s0.edges, e.routes[i].ni) /\ PathOK(s0.edges, e.routes[i].nr))
                 \cup C("directions_reversed", e.f = "circular" \/ \A i \in 1..Len(e.routes) :
                          e.routes[i].nr = Backwards(e.routes[i].ni) /\ e.routes[i].sr = Backwards(e.routes[i].si))
                 \cup C("addable", \A i \in 1..Len(e.added) : e.added[i] = "ok"))
    [] OTHER -> Verdict(s0, {})

\* exported lines against the network
Joined(q) == IF q = <<>> THEN "" ELSE LET RECURSIVE J(_) J(k) == IF k = 1 THEN q[1] ELSE SCat(SCat(J(k - 1), ","), q[k]) IN J(Len(q))
JudgeC12(s0, e) ==
  CASE e.op = "network" -> Verdict([s0 EXCEPT !.net = [modes |-> e.modes, routes |-> e.routes]], {})
    [] e.op = "export" ->
         LET rs == s0.net.routes
             nm(t) == s0.net.modes[CHOOSE i \in 1..Len(s0.net.modes) : s0.net.modes[i].tag = t].name
             f(i) == SSplit(e.lines[i + 1], ";")
         IN Verdict(s0,
              IF e.outcome # "ok" THEN {"export_failed"}
              ELSE C("one_line_per_route", Len(e.lines) = Len(rs) + 1)
              \cup C("header", Len(e.lines) > 0 /\ SSplit(e.lines[1], ";") = <<"route_id", "mode", "nodes_sequence_i", "nodes_sequence_r", "stops_sequence_i", "stops_sequence_r">>)
              \cup (IF Len(e.lines) # Len(rs) + 1 THEN {} ELSE
                    C("line_of_route", \A i \in 1..Len(rs) :
                         f(i) = <<rs[i].id, nm(rs[i].mode), Joined(rs[i].ni), Joined(rs[i].nr), Joined(rs[i].si), Joined(rs[i].sr)>>))
              \cup C("export_keeps_network", Keys(e.routes) = Keys(rs)))
    [] e.op = "rebuild" -> Verdict(s0, C("rebuilt_routes", e.outcome = "ok" /\ Keys(e.routes) = Keys(s0.net.routes)))
    [] OTHER -> Verdict(s0, {})
=============================================================================
