------------------------------- MODULE City --------------------------------
(***************************************************************************)
(* The city: one CBD, n zones with one periphery and one subcenter each,   *)
(* and the directed links between them.                                    *)
(*                                                                         *)
(* A city is a record [nodes, zones, edges]                                *)
(*   nodes  sequence of [id, name, kind, zone, x, y, radius, angle, width] *)
(*   zones  sequence of [id, p, sc]   (ids of the two nodes)               *)
(*   edges  set of pairs <<a, b>> of node ids                              *)
(***************************************************************************)
EXTENDS Num, FiniteSets, TLC


(*------------------------- parameters and domains ------------------------*)
\* p = [n, l, g, p, etha, ethaZone, angles, Gi, Hi], all numbers (strings); optional ones "None"
NonNeg(x) == NIsNum(x) /\ NLe("0", x)
Between(x, a, b) == NIsNum(x) /\ NLe(a, x) /\ NLe(x, b)

\* the city built when parameters are left out
CityDefaults == [n |-> "2", l |-> "10", g |-> "0.5", p |-> "2"]
WithDefaults(q) == [k \in DOMAIN q |-> IF k \in DOMAIN CityDefaults /\ q[k] = "omitted" THEN CityDefaults[k] ELSE q[k]]

\* the set of domain errors of a parameter set: {} = the city is accepted
ParamErrors(q) ==
  LET n == IF NIsInt(q.n) THEN q.n ELSE "-1"
      some == q.etha # "None"   someZ == q.ethaZone # "None"
  IN  (IF NIsInt(q.n) /\ NLe("0", q.n) THEN {} ELSE {"NIsNotValidNumberException"})
 \cup (IF NonNeg(q.l) THEN {} ELSE {"LIsNotValidNumberException"})
 \cup (IF NonNeg(q.g) THEN {} ELSE {"GIsNotValidNumberException"})
 \cup (IF NonNeg(q.p) THEN {} ELSE {"PIsNotValidNumberException"})
 \cup (IF ~some /\ someZ THEN {"EthaValueRequiredException"} ELSE {})
 \cup (IF some /\ ~someZ THEN {"EthaZoneValueRequiredException"} ELSE {})
 \cup (IF some /\ someZ /\ ~Between(q.etha, "0", "1") THEN {"EthaValueIsNotValidException"} ELSE {})
 \cup (IF some /\ someZ /\ ~(NIsInt(q.ethaZone) /\ Between(q.ethaZone, "1", n))
       THEN {"EthaZoneValueIsNotValidException"} ELSE {})
 \cup (IF q.angles = <<"None">> THEN {} ELSE
         (IF NEq(NInt(Len(q.angles)), n) THEN {} ELSE {"AngleListLengthIsNotValidException"})
    \cup (IF \A i \in 1..Len(q.angles) : Between(q.angles[i], "0", "360") THEN {} ELSE {"AngleValueIsNotValidException"}))
 \cup (IF q.Gi = <<"None">> THEN {} ELSE
         (IF NEq(NInt(Len(q.Gi)), n) THEN {} ELSE {"GiListLengthIsNotValidException"})
    \cup (IF \A i \in 1..Len(q.Gi) : NonNeg(q.Gi[i]) THEN {} ELSE {"GiValueIsNotValidException"}))
 \cup (IF q.Hi = <<"None">> THEN {} ELSE
         (IF NEq(NInt(Len(q.Hi)), n) THEN {} ELSE {"HiListLengthIsNotValidException"})
    \cup (IF \A i \in 1..Len(q.Hi) : NonNeg(q.Hi[i]) THEN {} ELSE {"HiValueIsNotValidException"}))

(*------------------------------- topology --------------------------------*)
\* links of a city with the given cbd id and sequence of zones [p, sc]
Topology(cbd, zs) ==
  LET n == Len(zs)
      sc(k) == zs[((k - 1) % n) + 1].sc
  IN  {<<zs[k].p, zs[k].sc>> : k \in 1..n} \cup {<<zs[k].sc, zs[k].p>> : k \in 1..n}
 \cup {<<zs[k].sc, cbd>> : k \in 1..n}     \cup {<<cbd, zs[k].sc>> : k \in 1..n}
 \cup (IF n = 1 THEN {} ELSE {<<sc(k), sc(k + 1)>> : k \in 1..n} \cup {<<sc(k + 1), sc(k)>> : k \in 1..n})

\* number of links of a city with n zones
LinkCount(n) == CASE n = 0 -> 0 [] n = 1 -> 4 [] n = 2 -> 10 [] OTHER -> 6 * n

(*------------------------------- geometry --------------------------------*)
X(r, ang) == NMul(r, NCosDeg(ang))
Y(r, ang) == NMul(r, NSinDeg(ang))

NodeRec(id, name, kind, zone, r, ang, w) ==
  [id |-> ToString(id), name |-> name, kind |-> kind, zone |-> zone,
   x |-> X(r, ang), y |-> Y(r, ang), radius |-> r, angle |-> ang, width |-> w]

CityFromParameters(q) ==
  LET n == NToInt(q.n)
      ang(k) == IF q.angles = <<"None">> THEN NMul(NDiv("360", q.n), NInt(k - 1)) ELSE q.angles[k]
      rsc(k) == IF q.Gi = <<"None">> THEN q.l ELSE NMul(q.l, q.Gi[k])
      lp == NAdd(q.l, NMul(q.g, q.l))
      rp(k) == IF q.Hi = <<"None">> THEN lp ELSE NMul(lp, q.Hi[k])
      cbd == IF q.etha = "None" THEN NodeRec(0, "CBD", "CBD", 0, "0", "0", q.p)
             ELSE LET z == NToInt(q.ethaZone)
                  IN NodeRec(0, "CBD", "CBD", 0, NMul(q.etha, rsc(z)), ang(z), q.p)
      pair(k) == <<NodeRec(2 * k - 1, SCat("P_", ToString(k)), "P", k, rp(k), ang(k), q.p),
                   NodeRec(2 * k, SCat("SC_", ToString(k)), "SC", k, rsc(k), ang(k), q.p)>>
      zs == TLCEval([k \in 1..n |-> [id |-> k, p |-> ToString(2 * k - 1), sc |-> ToString(2 * k)]])
  IN [ nodes |-> TLCEval([i \in 1..(2 * n + 1) |-> IF i = 1 THEN cbd ELSE pair(i \div 2)[(i % 2) + 1]]),
       zones |-> zs, edges |-> TLCEval(Topology("0", zs)) ]

NodeById(city, id) == city.nodes[CHOOSE i \in 1..Len(city.nodes) : city.nodes[i].id = id]
NodeIds(city) == {city.nodes[i].id : i \in 1..Len(city.nodes)}
Dist(a, b) == NSqrt(NAdd(NMul(NSub(a.x, b.x), NSub(a.x, b.x)), NMul(NSub(a.y, b.y), NSub(a.y, b.y))))
DistIds(city, i, j) == Dist(NodeById(city, i), NodeById(city, j))

SamePlace(a, b) == NClose(a.x, b.x) /\ NClose(a.y, b.y)
\* angle given for a position (x, y) off the origin is its direction, in [0, 360]
DirectionOK(x, y, ang) ==
  LET r == NSqrt(NAdd(NMul(x, x), NMul(y, y)))
  IN /\ NIsNum(ang) /\ NLe("0", ang) /\ NLe(ang, "360")
     /\ IF NEq(r, "0") THEN NEq(ang, "0")
        ELSE /\ NCloseT(NCosDeg(ang), NDiv(x, r), "1e-6")
             /\ NCloseT(NSinDeg(ang), NDiv(y, r), "1e-6")

(*--------------------- exchange text (Pajek vertices) --------------------*)
\* The text is given as its sequence of lines.  PajekRead is the reading
\* automaton: it skips to the *vertices line, then consumes that many rows.
HeaderAt(lines) ==
  IF \E i \in 1..Len(lines) : SStarts(SLower(lines[i]), "*vertices")
  THEN CHOOSE i \in 1..Len(lines) : /\ SStarts(SLower(lines[i]), "*vertices")
                                    /\ \A j \in 1..(i - 1) : ~SStarts(SLower(lines[j]), "*vertices")
  ELSE 0

RowRec(w) == [id |-> w[1], name |-> w[2], x |-> w[3], y |-> w[4], kind |-> w[5], zone |-> w[6], width |-> w[7]]

\* problems of a text; {} = it describes a city
PajekProblems(lines) ==
  LET h == HeaderAt(lines) IN
  IF h = 0 THEN {"no vertices line"} ELSE
  LET hw == SWords(lines[h]) IN
  IF Len(hw) # 2 \/ ~NIsInt(hw[2]) \/ NLt(hw[2], "1") THEN {"declared size"} ELSE
  LET N == NToInt(hw[2]) IN
  IF Len(lines) < h + N THEN {"fewer lines than declared"} ELSE
  LET words == TLCEval([i \in 1..N |-> SWords(lines[h + i])]) IN
  IF \E i \in 1..N : Len(words[i]) # 7 THEN {"line shape"} ELSE
  LET rows == TLCEval([i \in 1..N |-> RowRec(words[i])])
      n == (N - 1) \div 2
      badField == (IF \E i \in 1..N : rows[i].kind \notin {"CBD", "P", "SC"} THEN {"node kind"} ELSE {})
             \cup (IF \E i \in 1..N : ~NIsInt(rows[i].id) THEN {"node id"} ELSE {})
             \cup (IF \E i \in 1..N : ~NIsInt(rows[i].zone) THEN {"zone"} ELSE {})
             \cup (IF \E i \in 1..N : ~(NIsNum(rows[i].x) /\ NIsNum(rows[i].y)) THEN {"position"} ELSE {})
             \cup (IF \E i \in 1..N : ~NonNeg(rows[i].width) THEN {"width"} ELSE {})
  IN IF badField # {} THEN badField ELSE
     (IF N % 2 = 0 THEN {"number of lines"} ELSE {})
  \cup (IF Cardinality({i \in 1..N : rows[i].kind = "CBD"}) # 1 THEN {"exactly one CBD"} ELSE {})
  \cup (IF \E i \in 1..N : rows[i].kind = "CBD" /\ NToInt(rows[i].zone) # 0 THEN {"zone of the CBD"} ELSE {})
  \cup (IF \A z \in 1..n : \A k \in {"P", "SC"} :
             Cardinality({i \in 1..N : rows[i].kind = k /\ NToInt(rows[i].zone) = z}) = 1
        THEN {} ELSE {"one periphery and one subcenter per zone"})
  \cup (IF Cardinality({NToInt(rows[i].id) : i \in 1..N}) # N THEN {"duplicated id"} ELSE {})

Hypot(x, y) == NSqrt(NAdd(NMul(x, x), NMul(y, y)))

CityFromPajek(lines) ==      \* defined when PajekProblems(lines) = {}
  LET h == HeaderAt(lines)
      N == NToInt(SWords(lines[h])[2])
      n == (N - 1) \div 2
      rows == TLCEval([i \in 1..N |-> RowRec(SWords(lines[h + i]))])
      row(k, z) == CHOOSE i \in 1..N : rows[i].kind = k /\ NToInt(rows[i].zone) = z
      nd(k, z) == LET r == rows[row(k, z)]
                  IN [id |-> ToString(NToInt(r.id)), name |-> r.name, kind |-> k, zone |-> z, x |-> r.x, y |-> r.y,
                      radius |-> Hypot(r.x, r.y), angle |-> "None", width |-> r.width]
      zs == TLCEval([k \in 1..n |-> [id |-> k, p |-> nd("P", k).id, sc |-> nd("SC", k).id]])
  IN [ nodes |-> TLCEval([i \in 1..N |-> IF i = 1 THEN nd("CBD", 0)
                                         ELSE nd(IF i % 2 = 0 THEN "P" ELSE "SC", i \div 2)]),
       zones |-> zs, edges |-> TLCEval(Topology(nd("CBD", 0).id, zs)) ]

(* Geometry of a text.  A city needs its peripheries, on average, at least  *)
(* as far out as its subcenters (g >= 0), and a CBD displaced towards a     *)
(* subcenter not beyond it (etha <= 1).  Wrong: clearly not so.  Open: the  *)
(* specification leaves acceptance free (radii at the origin, ties within   *)
(* rounding, several subcenters in the direction of the CBD).               *)
Subs(city)  == {i \in 1..Len(city.nodes) : city.nodes[i].kind = "SC"}
Pers(city)  == {i \in 1..Len(city.nodes) : city.nodes[i].kind = "P"}
MeanRadius(city, S) == NDiv(NSumSet([i \in S |-> city.nodes[i].radius], S), NInt(Cardinality(S)))
Aligned(a, b, tol) ==     \* directions of two positions equal within tol radians
  LET cross == NSub(NMul(a.x, b.y), NMul(a.y, b.x))
      dot == NAdd(NMul(a.x, b.x), NMul(a.y, b.y))
      m == NMul(a.radius, b.radius)
  IN NLe("0", dot) /\ NLe(NMul(cross, cross), NMul(NMul(tol, tol), NMul(m, m)))
Beyond(city) == {i \in Subs(city) : ~NLe(city.nodes[1].radius, NMul(city.nodes[i].radius, "0.999"))
                                     /\ Aligned(city.nodes[1], city.nodes[i], "0.01")}
PajekWrong(city) ==
     (IF Subs(city) # {} /\ NLt(MeanRadius(city, Pers(city)), NMul("0.999999", MeanRadius(city, Subs(city))))
      THEN {"peripheries nearer than subcenters"} ELSE {})
\cup (IF Cardinality({i \in Subs(city) : Aligned(city.nodes[1], city.nodes[i], "0.01")}) = 1
         /\ \E i \in Beyond(city) : /\ Aligned(city.nodes[1], city.nodes[i], "0.000001")
                                    /\ NLe(NMul("1.001", city.nodes[i].radius), city.nodes[1].radius)
                                    /\ NLe(NMul("0.001", city.nodes[i].radius), city.nodes[i].y)
      THEN {"CBD beyond its subcenter"} ELSE {})
PajekOpen(city) ==
  \/ \E i \in Subs(city) : NCloseT(city.nodes[i].radius, "0", "1e-6")
  \/ (Pers(city) # {} /\ \A i \in Pers(city) : NCloseT(city.nodes[i].radius, "0", "1e-6"))
  \/ (Subs(city) # {} /\ NLt(MeanRadius(city, Pers(city)), NMul("1.000001", MeanRadius(city, Subs(city)))))
  \/ Beyond(city) # {}

\* parameters read back from a city given by text
ParametersOf(city) ==
  LET n == Len(city.zones)
      rsc == [k \in 1..n |-> NodeById(city, city.zones[k].sc).radius]
      rp == [k \in 1..n |-> NodeById(city, city.zones[k].p).radius]
      L == NDiv(NSum(rsc), NInt(n))
      M == NDiv(NSum(rp), NInt(n))
      g == NDiv(NSub(M, L), L)
  IN [l |-> L, g |-> g, Gi |-> [k \in 1..n |-> NDiv(rsc[k], L)], Hi |-> [k \in 1..n |-> NDiv(rp[k], M)]]

\* every periphery lies in the direction of its own subcenter, so that the city
\* can be given by parameters; the same for the CBD
OnRayOf(n, sc) ==
  LET r == NDiv(n.radius, sc.radius)
  IN NCloseT(n.x, NMul(r, sc.x), "1e-4") /\ NCloseT(n.y, NMul(r, sc.y), "1e-4")
Regular(city) == \A k \in 1..Len(city.zones) : OnRayOf(NodeById(city, city.zones[k].p), NodeById(city, city.zones[k].sc))
CbdExpressible(city) ==
  LET b == city.nodes[1] IN
  \/ NEq(b.x, "0") /\ NEq(b.y, "0")
  \/ \E k \in 1..Len(city.zones) :
       LET s == NodeById(city, city.zones[k].sc) IN
         /\ NEq(NMul(b.x, s.y), NMul(b.y, s.x)) /\ ~NLt(NMul(b.x, s.x), "0") /\ ~NLt(NMul(b.y, s.y), "0")
         /\ ~NLt(s.radius, b.radius)
OneWidth(city) == \A i \in 1..Len(city.nodes) : NEq(city.nodes[i].width, city.nodes[1].width)
=============================================================================
