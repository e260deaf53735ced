------------------------------- MODULE MRoute ------------------------------
(* All pairs of node and stop sequences over a small alphabet: the verdict  *)
(* of the specification on each, emitted and replayed on the real           *)
(* constructor.                                                             *)
EXTENDS Lines, Json
CONSTANTS Alpha, MaxNodes, MaxStops
Seqs(k) == UNION {[1..i -> Alpha] : i \in 0..k}
VARIABLES ni, nr, si, sr
Init == ni \in Seqs(MaxNodes) /\ nr \in Seqs(MaxNodes) /\ si \in Seqs(MaxStops) /\ sr \in Seqs(MaxStops)
Next == FALSE /\ UNCHANGED <<ni, nr, si, sr>>
AcceptedIsRideable == \* an accepted route leaves and returns
  (RouteErrors(ni, nr, si, sr) = {}) => /\ ni[1] = nr[Len(nr)] /\ nr[1] = ni[Len(ni)]
                                        /\ ni[1] \in RangeOf(si) /\ nr[1] \in RangeOf(sr) /\ Len(si) <= Len(ni) + MaxStops
Emit == PrintT("@T " \o ToJson(<<ni, nr, si, sr, RouteErrors(ni, nr, si, sr), RouteOpen(ni, nr, si, sr)>>))
=============================================================================
