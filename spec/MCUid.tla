------------------------------- MODULE MCUid -------------------------------
(***************************************************************************)
(* UIDs of every length around the limits, with hyphens at any subset of   *)
(* the interesting positions, in one- and multi-byte characters.           *)
(***************************************************************************)
EXTENDS OfxLeaf, OfxEmit
CONSTANTS Lengths, Fills
VARIABLES vSize, vHyphens, vFill
vars == <<vSize, vHyphens, vFill>>
Spots == {1, 8, 9, 10, 14, 19, 24, 25, 36}
Init == vSize \in Lengths /\ vHyphens = {} /\ vFill \in Fills
Hyphen == \E p \in Spots : p <= vSize /\ p \notin vHyphens /\ (\A q \in vHyphens : q < p) /\ vHyphens' = vHyphens \cup {p} /\ UNCHANGED <<vSize, vFill>>
Next == Hyphen
Spec == Init /\ [][Next]_vars
\* fill = <<character, bytes>>; the last character is widened so that the length in bytes is n when possible.
U == Cat([i \in 1..vSize |-> IF i \in vHyphens THEN "-" ELSE vFill[1]])
NBytes == Cardinality(vHyphens) + (vSize - Cardinality(vHyphens)) * vFill[2]
Rec == vFill[2] = 1 /\ vSize = 36 /\ {9,14,19,24} \subseteq vHyphens
RecImpliesValid == (vFill[2] = 1 /\ UidRecommended(U)) => UidValid(vSize)
Agree == vFill[2] = 1 => (UidRecommended(U) <=> Rec)
Emitted == Emit([op |-> "uid", kind |-> "uid", text |-> U, n |-> NBytes, valid |-> UidValid(NBytes), rec |-> Rec, multi |-> (vFill[2] > 1)])
=============================================================================
