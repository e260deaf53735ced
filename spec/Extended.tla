------------------------------ MODULE Extended ------------------------------
(***************************************************************************)
(* The extended network of an assignment.                                  *)
(* in: [nodes: seq of [id, x, y, width], modes: tag -> attributes,         *)
(*      routes: seq of routes (Lines.tla), f: route id -> frequency,       *)
(*      pax: passenger attributes, p: width of a city stripe]              *)
(* node keys: c|n  s|n|mode  l|route|direction|n                           *)
(***************************************************************************)
EXTENDS Lines

CKey(n) == SCat("c|", n)
SKey(n, m) == SCat(SCat("s|", n), SCat("|", m))
LKey(r, dir, n) == SCat(SCat("l|", r), SCat("|", SCat(dir, SCat("|", n))))

Stops(r, dir) == IF dir = "I" THEN r.si ELSE r.sr
Nodes(r, dir) == IF dir = "I" THEN r.ni ELSE r.nr
\* places where a line calls, in order; a circular line starts and ends at the same place: counted once
Calls(r, dir) == LET q == Stops(r, dir) IN IF r.type = "CIRCULAR" /\ q # <<>> THEN Tail(q) ELSE q
Dirs == {"I", "R"}
Routes(in) == {in.routes[i] : i \in 1..Len(in.routes)}
LineNodes(in) == UNION {{[k |-> LKey(r.id, dir, n), ty |-> "line", n |-> n, m |-> r.mode, r |-> r.id, dir |-> dir]
                         : n \in RangeOf(Calls(r, dir))} : <<r, dir>> \in Routes(in) \X Dirs}
StopNodes(in) == {[k |-> SKey(x.n, x.m), ty |-> "stop", n |-> x.n, m |-> x.m, r |-> "", dir |-> ""] : x \in LineNodes(in)}
CityNodes(in) == {[k |-> CKey(x.n), ty |-> "city", n |-> x.n, m |-> "", r |-> "", dir |-> ""] : x \in LineNodes(in)}
ENodes(in) == LineNodes(in) \cup StopNodes(in) \cup CityNodes(in)

PosOf(in) == [n \in {in.nodes[i].id : i \in 1..Len(in.nodes)} |-> in.nodes[CHOOSE i \in 1..Len(in.nodes) : in.nodes[i].id = n]]
EDist(a, b) == LET dx == NSub(a.x, b.x)  dy == NSub(a.y, b.y) IN NSqrt(NAdd(NMul(dx, dx), NMul(dy, dy)))
IndexIn(q, x) == CHOOSE i \in 1..Len(q) : q[i] = x
\* length driven along q from position i to position j
RECURSIVE Driven(_, _, _, _)
Driven(pos, q, i, j) == IF i >= j THEN "0" ELSE NAdd(EDist(pos[q[i]], pos[q[i + 1]]), Driven(pos, q, i + 1, j))
WholeLength(pos, q) == Driven(pos, q, 1, Len(q))

\* in-vehicle links of a line: [a, b, len]
RideLinks(in, pos, r, dir) ==
  LET st == Stops(r, dir)  q == Nodes(r, dir)
  IN IF r.type = "CIRCULAR"
     THEN {[a |-> LKey(r.id, dir, st[i]), b |-> LKey(r.id, dir, st[i + 1]), len |-> EDist(pos[st[i]], pos[st[i + 1]])] : i \in 1..(Len(st) - 1)}
     ELSE {[a |-> LKey(r.id, dir, st[i]), b |-> LKey(r.id, dir, st[i + 1]),
            len |-> Driven(pos, q, IndexIn(q, st[i]), IndexIn(q, st[i + 1]))] : i \in 1..(Len(st) - 1)}

Edge(a, b, ty, t, f) == [a |-> a, b |-> b, ty |-> ty, t |-> t, f |-> f]
AccessEdges(in) == UNION {LET t == NDiv(in.modes[s.m].tat, "60")
   IN {Edge(CKey(s.n), s.k, "ACCESS", t, "inf"), Edge(s.k, CKey(s.n), "ACCESS", t, "inf")} : s \in StopNodes(in)}
MayBoard(r, dir, n) == r.type = "CIRCULAR" \/ n # Nodes(r, dir)[Len(Nodes(r, dir))]
MayAlight(r, dir, n) == r.type = "CIRCULAR" \/ n # Nodes(r, dir)[1]
BoardingEdges(in) == UNION {{Edge(SKey(n, r.mode), LKey(r.id, dir, n), "BOARDING", "0", NDiv(in.f[r.id], in.modes[r.mode].d))
   : n \in {m \in RangeOf(Calls(r, dir)) : MayBoard(r, dir, m)}} : <<r, dir>> \in Routes(in) \X Dirs}
AlightingEdges(in) == UNION {{Edge(LKey(r.id, dir, n), SKey(n, r.mode), "ALIGHTING", NDiv(in.pax.pt, "60"), "inf")
   : n \in {m \in RangeOf(Calls(r, dir)) : MayAlight(r, dir, m)}} : <<r, dir>> \in Routes(in) \X Dirs}
RouteEdges(in, pos) == UNION {{Edge(x.a, x.b, "ROUTE", NDiv(x.len, in.modes[r.mode].v), "inf")
   : x \in RideLinks(in, pos, r, dir)} : <<r, dir>> \in Routes(in) \X Dirs}
EEdges(in) == LET pos == PosOf(in) IN AccessEdges(in) \cup BoardingEdges(in) \cup AlightingEdges(in) \cup RouteEdges(in, pos)
EdgeKey(e) == <<e.a, e.b, e.ty>>
=============================================================================
