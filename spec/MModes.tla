------------------------------- MODULE MModes ------------------------------
(* Exhaustive model of the mode registry: all histories over three names   *)
(* and d in {1, 2}; every transition is emitted and replayed.              *)
EXTENDS Modes, Json, TLC
NameSet == {"a", "b", "c", "d"}
VARIABLES reg, last
Init == reg = <<>> /\ last = [op |-> "new"]
Do(op, n, d, er, reg1) == /\ reg' = IF er = {} THEN reg1 ELSE reg
                          /\ last' = [op |-> op, name |-> n, d |-> d, err |-> er]
Add(n, d)  == Len(reg) < 4 /\ Do("add", n, d, AddErrors(reg, n), AddEffect(reg, n, "0", d))
Remove(n)  == Do("remove", n, "0", RemoveErrors(reg, n), RemoveEffect(reg, n))
Get(n)     == Do("get", n, "0", GetErrors(reg, n), reg)
Check      == Do("usable", "", "0", IF Usable(reg) THEN {} ELSE {"TransportNetworkException"}, reg)
BadAdd     == Do("addbad", "", "0", {"ModeIsNotValidException"}, reg)
Next == \/ \E n \in NameSet : (\E d \in {"1", "2"} : Add(n, d)) \/ Remove(n) \/ Get(n)
        \/ Check \/ BadAdd
UniqueNames == Cardinality(Names(reg)) = Len(reg)
UsableSmall == Usable(reg) => Len(reg) \in {1, 2}
View == reg
Emit == PrintT("@T " \o ToJson([s |-> reg, a |-> last', t |-> reg']))
=============================================================================
