------------------------------ MODULE MDemand ------------------------------
(* Exhaustive model of the demand registry over a small city: every history *)
(* of edits (accepted and rejected); every transition is emitted and later  *)
(* replayed on the implementation.                                          *)
EXTENDS Demand, Json

Ids == {"0", "1", "2"}
Cells == {<<"1", "0">>, <<"2", "2">>, <<"0", "1">>}
Values == {"0", "1", "2.5"}
Args == {<<o, d, v>> : o \in Ids \cup {"7"}, d \in {"0", "9"}, v \in {"-1", "-0.001"}}
        \cup {<<"7", d, v>> : d \in {"1", "9"}, v \in Values}
        \cup {<<o, "9", v>> : o \in Ids, v \in Values}
        \cup {<<c[1], c[2], v>> : c \in Cells, v \in Values}

VARIABLES m, total, last
vars == <<m, total>>
Init == m = ZeroMatrix(Ids) /\ total = "0" /\ last = [op |-> "new"]

Edit(o, d, v) ==
  LET er == EditErrors(m, o, d, v) IN
  /\ IF er = {} THEN /\ m' = EditEffect(m, o, d, v)
                     /\ total' = NAdd(NSub(total, m[o][d]), v)
     ELSE UNCHANGED vars
  /\ last' = [op |-> "edit", o |-> o, d |-> d, v |-> v, err |-> er]
Next == \E a \in Args : Edit(a[1], a[2], a[3])

TotalIsSum == NEq(total, MatrixSum(m))
NonNegative == \A o, d \in Ids : NLe("0", m[o][d])
View == vars
Emit == PrintT("@T " \o ToJson([s |-> [m |-> m, total |-> total], a |-> last', t |-> [m |-> m', total |-> total']]))
=============================================================================
