------------------------------- MODULE MCText -------------------------------
(***************************************************************************)
(* Text elements as sequences of wire pieces: plain characters, entities,  *)
(* numeric references.  Each piece has a wire spelling and a meaning; the  *)
(* meaning of the element is the trimmed concatenation.                    *)
(***************************************************************************)
EXTENDS OfxLeaf, OfxEmit
CONSTANTS Pieces, MaxPieces, Kinds    \* Pieces: set of <<wire, meaning>>
VARIABLES vKind, vParts
vars == <<vKind, vParts>>
AllPieces == {<<"a","a">>, <<"B","B">>, <<"7","7">>, <<" "," ">>, <<"&lt;","<">>, <<"&amp;","&">>, <<">",">">>, <<"&gt;",">">>,
              <<"'","'">>, <<"&quot;","\"">>, <<"\"","\"">>, <<"&apos;","'">>, <<"&#65;","A">>, <<"&#x3c;","<">>, <<"&#38;","&">>, <<"é","é">>, <<"漢","漢">>,
              <<"\n","\n">>, <<"/","/">>, <<"amp;","amp;">>, <<"[","[">>, <<"]","]">>, <<"-","-">>}
\* "]]>" is not allowed in XML character data.
Wire == Cat([i \in 1..Len(vParts) |-> vParts[i][1]])
Meaning == Trim(Cat([i \in 1..Len(vParts) |-> vParts[i][2]]))
Init == vKind \in Kinds /\ vParts = <<>>
Next == Len(vParts) < MaxPieces /\ \E p \in Pieces : vParts' = Append(vParts, p) /\ UNCHANGED vKind
Spec == Init /\ [][Next]_vars
EscapeInverts == Unescape(Escape(Meaning)) = Meaning
Emitted == vParts # <<>> => Emit([op |-> "decode", kind |-> vKind, wire |-> Wire, text |-> Wire,
                st |-> IF Contains(Wire, "]]>") THEN "free" ELSE "ok", v |-> Meaning])
=============================================================================
