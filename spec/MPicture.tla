------------------------------ MODULE MPicture ------------------------------
(* Sequences of pictures in one process.  All pictures are painted, layer   *)
(* by layer, on one sheet that survives them; the network changes between   *)
(* pictures and a request for an unknown route is turned down.  Whatever    *)
(* came before, a picture that is handed out holds exactly what it is of.   *)
EXTENDS Naturals, FiniteSets, Sequences, TLC, Json
Lines == {"A", "B", "C"}
Pairs == {1, 2, 3}
Picks == {<<"all", {}>>} \cup {<<"some", S>> : S \in SUBSET Lines}
Requests == {<<"city", <<>>, "">>, <<"other", <<>>, "">>} \cup ({"network"} \X Picks \X {"both", "I", "R"}) \cup {<<"paths", <<p>>, "">> : p \in Pairs}
VARIABLES net, sheet, layers, asked, out, ph
vars == <<net, sheet, layers, asked, out, ph>>
None == <<"", <<>>, "">>
Chosen(r, N) == IF r[2][1] = "all" THEN N ELSE r[2][2]
Unknown(r, N) == r[1] = "network" /\ ~(Chosen(r, N) \subseteq N)
Dirs(r) == IF r[3] = "both" THEN {"I", "R"} ELSE {r[3]}
City(w) == << {<<"nodes", w>>}, {<<"links", w>>} >>
\* the layers of a picture
Layers(r, N) ==
  CASE r[1] = "city" -> City(1)
    [] r[1] = "other" -> City(2)
    [] r[1] = "network" -> City(1) \o << {<<"stops", l, d>> : l \in Chosen(r, N), d \in Dirs(r)}, {<<"rides", l, d>> : l \in Chosen(r, N), d \in Dirs(r)} >>
    [] r[1] = "paths" -> << {<<"path nodes", r[2][1]>>}, {<<"path links", r[2][1]>>} >>
All(q) == UNION {q[i] : i \in 1..Len(q)}
Init == net = {"A", "B"} /\ sheet = {} /\ layers = <<>> /\ asked = None /\ out = {} /\ ph = "idle"
Ask(r) == /\ ph = "idle" /\ asked' = r
          /\ IF Unknown(r, net) THEN UNCHANGED <<sheet, layers, ph>>
             ELSE sheet' = {} /\ layers' = Layers(r, net) /\ ph' = "painting"
          /\ UNCHANGED <<net, out>>
Paint == /\ ph = "painting" /\ layers # <<>> /\ sheet' = sheet \cup Head(layers) /\ layers' = Tail(layers)
         /\ UNCHANGED <<net, asked, out, ph>>
Hand == /\ ph = "painting" /\ layers = <<>> /\ out' = sheet /\ ph' = "idle" /\ UNCHANGED <<net, sheet, layers, asked>>
Edit(l) == /\ ph = "idle" /\ net' = IF l \in net THEN net \ {l} ELSE net \cup {l}
           /\ asked' = <<"edit", <<l>>, "">> /\ out' = {} /\ UNCHANGED <<sheet, layers, ph>>
Next == (\E r \in Requests : Ask(r)) \/ Paint \/ Hand \/ \E l \in {"B", "C"} : Edit(l)
View == <<net, sheet, layers, asked, ph>>
\* what was handed out is what was asked for, and nothing else
HoldsExactly == (ph = "painting" /\ layers = <<>>) => sheet = All(Layers(asked, net))
NeverUnknown == ph = "painting" => ~Unknown(asked, net)
Vis == [net |-> net, last |-> asked]
Emit == ph = "idle" => PrintT("@T " \o ToJson([s |-> Vis, a |-> asked', t |-> Vis']))
=============================================================================
