------------------------------ MODULE MCDetect ------------------------------
(***************************************************************************)
(* detect-settings against a server that refuses its requests, each in a   *)
(* way of its own, until it accepts one.                                   *)
(***************************************************************************)
EXTENDS OfxCli, OfxEmit
CONSTANTS Accepts,  \* set of the requests (from 1; 0: none) that are accepted
          Kinds,    \* sequence of ways to refuse
          Flagsets  \* set of flags
VARIABLES vAccept, vFlags, vKind, vAsked, vState
vars == <<vAccept, vFlags, vKind, vAsked, vState>>
All == 2 * NumCandidates
Pairs == AppPairs
Init == vAccept \in Accepts /\ vFlags \in Flagsets /\ vKind = 1 /\ vAsked = 0 /\ vState = "trying"
\* One request and its answer; the tool goes on until one is accepted or there is nothing left to try.
Ask == /\ vState = "trying" /\ vAsked < All /\ vAsked' = vAsked + 1
       /\ IF vAsked + 1 = vAccept THEN vState' = "found" /\ UNCHANGED vKind ELSE vKind' = (vKind % Len(Kinds)) + 1 /\ UNCHANGED vState
       /\ UNCHANGED <<vAccept, vFlags>>
GiveUp == vState = "trying" /\ vAsked = All /\ vState' = "nothing" /\ UNCHANGED <<vAccept, vFlags, vKind, vAsked>>
Next == Ask \/ GiveUp
Spec == Init /\ [][Next]_vars
\* ---- properties of the specification
Right == vState = "found" => vAsked = vAccept
Exhausted == vState = "nothing" => vAccept = 0 /\ vAsked = All
Distinct == vAsked = 0 => LET p == Pairs IN \A i, j \in 0..(NumCandidates - 1) : i < j => i \div 22 # j \div 22 \/ Candidate(p, i) # Candidate(p, j)
AllPairs == vAsked = 0 => LET p == Pairs IN \A i, j \in 1..Len(p) : i < j => p[i] # p[j]
Emitted == vState # "trying" => Emit([op |-> "detect", f |-> vFlags, accept |-> vAccept, rejects |-> [i \in 1..Len(Kinds) |-> Kinds[i]]])
=============================================================================
