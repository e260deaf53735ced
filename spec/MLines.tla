------------------------------- MODULE MLines ------------------------------
(* Exhaustive model of the network registry on the two-zone city: modes a   *)
(* (d=1), b and c (d=2), a second object named a, and routes valid/invalid  *)
(* in either direction; every transition is emitted and replayed.           *)
EXTENDS Lines, Json
CONSTANT MaxRoutes
Edges == {<<"1","2">>, <<"2","1">>, <<"3","4">>, <<"4","3">>, <<"2","0">>, <<"0","2">>, <<"4","0">>, <<"0","4">>, <<"2","4">>, <<"4","2">>}
Mode(t) == CASE t = "a" -> [name |-> "a", tag |-> "a", d |-> "1"]
             [] t = "b" -> [name |-> "b", tag |-> "b", d |-> "2"]
             [] t = "c" -> [name |-> "c", tag |-> "c", d |-> "2"]
             [] t = "x" -> [name |-> "a", tag |-> "x", d |-> "1"]
R(id, m, ni, nr) == [id |-> id, mode |-> m, type |-> "CUSTOM", ni |-> ni, nr |-> nr, si |-> ni, sr |-> nr]
Candidates == {
  R("r1", "a", <<"1","2","0">>, <<"0","2","1">>), R("r2", "a", <<"2","4">>, <<"4","2">>),
  R("r3", "b", <<"3","4","0">>, <<"0","2","4","3">>), R("r1", "b", <<"2","0">>, <<"0","2">>),
  R("r4", "a", <<"2","0","4">>, <<"4","2">>), R("r5", "c", <<"0","2">>, <<"2","0">>), R("r6", "x", <<"0","4">>, <<"4","0">>),
  R("w1", "a", <<"1","0">>, <<"0","2","1">>), R("w2", "b", <<"1","2","0">>, <<"0","1">>), R("w3", "b", <<"1","3">>, <<"3","1">>) }

VARIABLES net, last
Init == net = [modes |-> <<>>, routes |-> <<>>] /\ last = [op |-> "new"]
Do(a, er, net1) == /\ net' = IF er = {} THEN net1 ELSE net
                   /\ last' = [a EXCEPT !.err = er]
A(op, x) == [op |-> op, x |-> x, err |-> {}]
AddMode(t) == Do(A("addmode", t), AddModeErrors(net, Mode(t)), AddModeEffect(net, Mode(t)))
RemoveMode(t) == Do(A("removemode", t), {}, RemoveModeEffect(net, t))
AddRoute(r) == /\ Len(net.routes) < MaxRoutes
               /\ Do(A("addroute", r), AddRouteErrors(net, Edges, r, Mode(r.mode)), AddRouteEffect(net, r, Mode(r.mode)))
RemoveRoute(id) == Do(A("removeroute", id), RemoveRouteErrors(net, id), RemoveRouteEffect(net, id))
GetRoute(id) == Do(A("getroute", id), RemoveRouteErrors(net, id), net)
AddBad == Do(A("addbad", ""), {"RouteIsNotvalidException"}, net) \/ Do(A("addbadmode", ""), {"ModeIsNotValidException"}, net)
Next == \/ \E t \in {"a", "b", "c", "x"} : AddMode(t) \/ RemoveMode(t)
        \/ \E r \in Candidates : AddRoute(r)
        \/ \E id \in {"r1", "r2", "r3", "r4", "zz"} : RemoveRoute(id) \/ GetRoute(id)
        \/ AddBad
Consistent == NetworkOK(net, Edges)
NoOrphans == \A i \in 1..Len(net.routes) : net.routes[i].mode \in ModeTags(net)
View == net
Abs(n) == [modes |-> [i \in 1..Len(n.modes) |-> n.modes[i].tag], routes |-> [i \in 1..Len(n.routes) |-> <<n.routes[i].id, n.routes[i].mode>>]]
Emit == PrintT("@T " \o ToJson([s |-> Abs(net), a |-> last', t |-> Abs(net')]))
=============================================================================
