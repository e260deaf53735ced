------------------------------- MODULE Modes -------------------------------
(***************************************************************************)
(* Transport modes: attribute domains and the registry of modes.           *)
(* A registry is a sequence of [name, tag, d]: tag identifies the object.  *)
(***************************************************************************)
EXTENDS Num, Sequences, FiniteSets

(*------------------------------ attributes -------------------------------*)
ModeNames == {"co", "c1", "c2", "v", "t", "fmax", "kmax", "tat", "d", "fini"}
ModeErrorOf == [co |-> "CoIsNotValidExceptions", c1 |-> "C1IsNotValidExceptions", c2 |-> "C2IsNotValidExceptions",
  v |-> "VIsNotValidExceptions", t |-> "TIsNotValidExceptions", fmax |-> "FmaxIsNotValidExceptions",
  kmax |-> "KmaxIsNotValidExceptions", tat |-> "TatIsNotValidExceptions", d |-> "DIsNotValidExceptions",
  fini |-> "FiniIsNotValidException", theta |-> "ThetaIsNotValidExceptions", bya |-> "ByaIsNotValidExceptions",
  name |-> "NameIsNotValidExceptions"]
ModeAttrOK(k, v) ==
  CASE k = "name" -> v # "None"
    [] k = "bya" -> NIsNum(v) /\ (NEq(v, "0") \/ NEq(v, "1"))
    [] k = "theta" -> NIsNum(v) /\ NLe("0", v) /\ NLe(v, "1")
    [] k = "v" -> NIsNum(v) /\ NLt("0", v)
    [] OTHER -> NIsNum(v) /\ NLe("0", v)
ModeAttrs == ModeNames \cup {"theta", "bya", "name"}
ModeErrors(q) == {ModeErrorOf[k] : k \in {k \in ModeAttrs : ~ModeAttrOK(k, q[k])}}
\* what an accepted mode reports: maximum and initial frequency are of all d lines together
ModeReports(q) == [k \in ModeAttrs |-> IF k \in {"fmax", "fini"} THEN NMul(q[k], q["d"]) ELSE q[k]]

PassengerAttrs == {"va", "pv", "pw", "pa", "pt", "spv", "spw", "spa", "spt"}
PassengerErrorOf == [va |-> "VaIsNotValidExceptions", pv |-> "PvIsNotValidExceptions", pw |-> "PwIsNotValidExceptions",
  pa |-> "PaIsNotValidExceptions", pt |-> "PtIsNotValidExceptions", spv |-> "SpvIsNotValidExceptions",
  spw |-> "SpwIsNotValidExceptions", spa |-> "SpaIsNotValidExceptions", spt |-> "SptIsNotValidExceptions"]
PassengerAttrOK(k, v) == NIsNum(v) /\ (IF k = "va" THEN NLt("0", v) ELSE NLe("0", v))
PassengerErrors(q) == {PassengerErrorOf[k] : k \in {k \in PassengerAttrs : ~PassengerAttrOK(k, q[k])}}

\* the values of a registry and a passenger nobody defined
DefaultModes == <<
  [name |-> "bus", bya |-> "1", co |-> "8.61", c1 |-> "0.15", c2 |-> "0", v |-> "20", t |-> "2.5", fmax |-> "150", kmax |-> "160",
   theta |-> "0.7", tat |-> "0", d |-> "4", fini |-> "28"],
  [name |-> "metro", bya |-> "0", co |-> "80.91", c1 |-> "0.3", c2 |-> "933.15", v |-> "40", t |-> "0.33", fmax |-> "40", kmax |-> "1440",
   theta |-> "0.5", tat |-> "1", d |-> "1", fini |-> "28"]>>
DefaultPassenger == [va |-> "4", pv |-> "2.74", pw |-> "5.48", pa |-> "8.22", pt |-> "16", spv |-> "2.74", spw |-> "5.48", spa |-> "8.22", spt |-> "16"]

(*------------------------------- registry --------------------------------*)
Names(reg) == {reg[i].name : i \in 1..Len(reg)}
AddErrors(reg, name) == IF name \in Names(reg) THEN {"AddModeExceptions"} ELSE {}
RemoveErrors(reg, name) == IF name \in Names(reg) THEN {} ELSE {"ModeDoesNotExistExceptions"}
GetErrors(reg, name) == IF name \in Names(reg) THEN {} ELSE {"ModeNotFoundExceptions"}
AddEffect(reg, name, tag, d) == Append(reg, [name |-> name, tag |-> tag, d |-> d])
RemoveEffect(reg, name) == SelectSeq(reg, LAMBDA r : r.name # name)
Lookup(reg, name) == reg[CHOOSE i \in 1..Len(reg) : reg[i].name = name]
Usable(reg) == \/ Len(reg) = 1
               \/ Len(reg) = 2 /\ \E i \in 1..2 : NEq(reg[i].d, "1")
=============================================================================
