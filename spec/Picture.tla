------------------------------ MODULE Picture ------------------------------
(***************************************************************************)
(* Pictures.  A picture is what lies on the drawing sheet at the moment it *)
(* is saved or shown: marks (points with a colour), captions (texts at a   *)
(* place) and arrows (from a place to a place, with a colour).             *)
(*                                                                         *)
(* A picture of a city shows its nodes and links; one of a network shows   *)
(* besides the stops and driven links of the chosen routes and directions; *)
(* one of the paths of a pair shows the nodes and links of the paths.      *)
(* A picture shows nothing else: in particular nothing of pictures drawn   *)
(* before.                                                                 *)
(***************************************************************************)
EXTENDS TraceBase

Same(p, q) == NClose(p.x, q.x) /\ NClose(p.y, q.y)
SameArrow(a, b) == Same(a.from, b.from) /\ Same(a.to, b.to)
\* one set of things drawn where another set of things has to be
Drawn(Eq(_, _), A, B) == (\A a \in A : \E b \in B : Eq(a, b)) /\ (\A b \in B : \E a \in A : Eq(a, b))
InColour(M, c) == {m \in M : m.c = c}
Shades(M) == {m.c : m \in M}
\* every group of things has a colour of its own, and nothing else is drawn
Grouped(Eq(_, _), M, gs) ==
  LET K == 1..Len(gs)
      used == {i \in K : gs[i] # {}}
      fit == [i \in used |-> {c \in Shades(M) : Drawn(Eq, InColour(M, c), gs[i])}]
  IN \E f \in [used -> Shades(M)] :
        /\ \A i \in used : f[i] \in fit[i]
        /\ \A i, j \in used : i # j => f[i] # f[j]
        /\ Shades(M) = {f[i] : i \in used}

\* one pair of axes, named, to the same scale, under a title
FrameFails(e) == C("one_pair_of_axes", e.sheets = 1) \cup C("axes_named", e.axes = <<"X", "Y">>)
  \cup C("titled", e.titled) \cup C("axes_to_the_same_scale", e.scaled)

NodesOfKind(e, k) == {n \in Ran(e.nodes) : n.k = k}
At(e, id) == CHOOSE n \in Ran(e.nodes) : n.id = id
Ways(e, q) == {[from |-> At(e, q[i]), to |-> At(e, q[i + 1])] : i \in 1..Len(q) - 1}
LinkSet(e) == {[from |-> At(e, x[1]), to |-> At(e, x[2])] : x \in Ran(e.links)}
\* marks of one place in one colour count once; the captions are one per node
CaptionsFails(e) ==
  C("one_caption_per_node", Len(e.captions) = Len(e.nodes))
  \cup C("captions_at_their_nodes", \A n \in Ran(e.nodes) : \E t \in Ran(e.captions) : t.text = n.id /\ Same(t, n))

\* ---- a city, alone or under the chosen routes of a network
Chosen(e) == IF e.all THEN Ran(e.routes) ELSE {r \in Ran(e.routes) : r.id \in Ran(e.chosen)}
Unknown(e) == ~e.all /\ \E i \in 1..Len(e.chosen) : \A r \in Ran(e.routes) : r.id # e.chosen[i]
Goes(e, d) == e.dir \in {d, "both"}
StopsShown(e) == UNION ({IF Goes(e, "I") THEN Ran(r.si) ELSE {} : r \in Chosen(e)} \cup {IF Goes(e, "R") THEN Ran(r.sr) ELSE {} : r \in Chosen(e)})
Rides(e, d) == IF Goes(e, d) THEN UNION {Ways(e, IF d = "I" THEN r.ni ELSE r.nr) : r \in Chosen(e)} ELSE {}
CityPictureFails(e) ==
  IF Unknown(e) THEN C("unknown_route_rejected", e.outcome = "RouteIdNotFoundException") \cup C("nothing_drawn_for_unknown_route", ~e.made)
  ELSE IF e.outcome # "ok" THEN {"picture_fails"}
  ELSE C("picture_made", e.made) \cup C("picture_saved_where_asked", e.there) \cup FrameFails(e)
    \cup C("marks", Grouped(Same, Ran(e.marks), <<NodesOfKind(e, "CBD"), NodesOfKind(e, "P"), NodesOfKind(e, "SC"),
                                                  {At(e, x) : x \in StopsShown(e)}>>))
    \cup C("arrows", Grouped(SameArrow, Ran(e.arrows), <<LinkSet(e), Rides(e, "I"), Rides(e, "R")>>))
    \cup CaptionsFails(e)
    \cup C("city_and_network_unchanged", e.unchanged)

\* ---- the paths of a pair: places are free, captions identify the nodes
Steps(e) == Ran(e.paths)
Called(e, ty) == {x.name : x \in {y \in UNION {Ran(p) : p \in Steps(e)} : y.ty = ty}}
Names(e) == Called(e, "city") \cup Called(e, "stop") \cup Called(e, "line")
Spot(e, name) == CHOOSE t \in Ran(e.captions) : t.text = name
PathsPictureFails(e) ==
  IF e.outcome # "ok" THEN {"picture_fails"}
  ELSE C("picture_made", e.made) \cup FrameFails(e)
    \cup (IF Len(e.captions) # Cardinality(Names(e)) \/ {t.text : t \in Ran(e.captions)} # Names(e) THEN {"one_caption_per_path_node"}
          ELSE C("marks", Grouped(Same, Ran(e.marks), <<{Spot(e, x) : x \in Called(e, "city")}, {Spot(e, x) : x \in Called(e, "stop")},
                                                        {Spot(e, x) : x \in Called(e, "line")}>>))
               \cup C("arrows", Drawn(SameArrow, Ran(e.arrows),
                        UNION {{[from |-> Spot(e, p[i].name), to |-> Spot(e, p[i + 1].name)] : i \in 1..Len(p) - 1} : p \in Steps(e)})))
    \cup C("paths_unchanged", e.unchanged)

St == [none |-> TRUE]
JudgeC29(s0, e) == Verdict(s0,
  CASE e.op = "picture" -> CityPictureFails(e)
    [] e.op = "paths_picture" -> PathsPictureFails(e)
    [] OTHER -> {})
=============================================================================
