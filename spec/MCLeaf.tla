------------------------------- MODULE MCLeaf -------------------------------
(***************************************************************************)
(* Texts of one leaf kind, built character by character over a small       *)
(* alphabet (all texts up to MaxLen), or taken from Seeds and damaged at   *)
(* every position.  Every reachable text is classified by the              *)
(* specification and emitted as a test of the real decoder; accepted       *)
(* values go through write and reread.                                     *)
(***************************************************************************)
EXTENDS OfxLeaf, OfxEmit
CONSTANTS Kinds, Alphabet, MaxLen, Seeds, Damage
VARIABLES vKind, vText, vPhase
vars == <<vKind, vText, vPhase>>

Init == /\ vKind \in Kinds
        /\ \/ vPhase = "build" /\ vText = ""
           \/ vPhase = "seed"  /\ vText \in Seeds
Extend == /\ vPhase = "build" /\ Len(vText) < MaxLen
          /\ \E a \in Alphabet : vText' = vText \o a
          /\ UNCHANGED <<vKind, vPhase>>
Mutate == /\ vPhase = "seed"
          /\ \E i \in 1..Len(vText), m \in Damage :
               vText' = CASE m = "drop" -> Before(vText, i) \o After(vText, i)
                         [] m = "dup"  -> SubSeq(vText, 1, i) \o SubSeq(vText, i, Len(vText))
                         [] m = "cut"  -> Before(vText, i)
                         [] OTHER      -> Before(vText, i) \o m \o After(vText, i)
          /\ vPhase' = "mutant" /\ UNCHANGED vKind
Surround == /\ vPhase = "seed"
            /\ \E p \in {<<" ", "">>, <<"\n", "\r\n">>, <<"\t", " ">>} : vText' = p[1] \o vText \o p[2]
            /\ vPhase' = "mutant" /\ UNCHANGED vKind
Next == Extend \/ Mutate \/ Surround
Spec == Init /\ [][Next]_vars

P == Parse(vKind, vText)
\* The value written back denotes itself, and white space never matters.
RoundTrip == P.st = "ok" => IF vKind = "date" THEN TRUE ELSE Writes(vKind, P.v, P.v)
TrimInvariant == Parse(vKind, " " \o vText \o "\n") = P
Emitted == Emit([op |-> "decode", kind |-> vKind, text |-> vText, st |-> P.st, v |-> P.v])
=============================================================================
