------------------------------- MODULE MCEnum -------------------------------
(***************************************************************************)
(* Every enumerated type against every legal name of every type, with each *)
(* legal name also damaged; and every constant with the name it stands for.*)
(***************************************************************************)
EXTENDS OfxLeaf, OfxEmit
CONSTANTS Types, Deep
VARIABLES vEnum, vPhase, vText
vars == <<vEnum, vPhase, vText>>
AllNames == UNION {EnumSet(x) : x \in Enums}

Marks == "!#$%&'()*+,-./:;<=>?@[]^`{|}~"

Init == /\ vEnum \in Types
        /\ \/ vPhase = "name"  /\ vText \in (AllNames \cup {"", "0", "1", "INVALID", "X"})
           \/ vPhase = "const" /\ vText \in EnumSet(vEnum)
Damage == /\ vPhase = "name" /\ vText \in EnumSet(vEnum)
          /\ vPhase' = "damaged" /\ UNCHANGED vEnum
          /\ \/ \E i \in 1..Len(vText) : vText' = Before(vText, i) \o After(vText, i)
             \/ \E i \in 1..Len(vText) : Deep /\ vText' = Before(vText, i) \o LowerCh(Ch(vText, i)) \o After(vText, i)
             \/ \E i \in 1..Len(vText) : Deep /\ vText' = Before(vText, i) \o " " \o SubSeq(vText, i, Len(vText))
             \/ \E i \in 1..Len(vText) : Deep /\ vText' = Before(vText, i) \o "X" \o After(vText, i)
             \/ vText' = ToLower(vText)
             \/ \E s \in {"S", " X", "0", "_"} : vText' = vText \o s
             \/ vText' = vText \o vText
             \/ \E i \in 1..Len(Marks) : vText' \in {vText \o Ch(Marks, i), Ch(Marks, i) \o vText}
Blanks == /\ vPhase = "name"
          /\ \E p \in {<<" ", "">>, <<"\r\n\t", " \n">>} : vText' = p[1] \o vText \o p[2]
          /\ vPhase' = "damaged" /\ UNCHANGED vEnum
Next == Damage \/ Blanks
Spec == Init /\ [][Next]_vars
P == ParseEnum(vEnum, vText)
\* Constants and names are in bijection.
Bijection == /\ Cardinality(EnumSet(vEnum)) = Len(EnumNames[vEnum])
             /\ Len(EnumConst[vEnum]) = Len(EnumNames[vEnum])
             /\ Cardinality(RangeOf(EnumConst[vEnum])) = Len(EnumConst[vEnum])
Emitted ==
  IF vPhase = "const"
  THEN Emit([op |-> "enumconst", kind |-> vEnum, text |-> vText, name |-> EnumConst[vEnum][EnumIndex(vEnum, vText)],
             st |-> "ok", v |-> vText, n |-> Len(EnumNames[vEnum])])
  ELSE Emit([op |-> "decode", kind |-> vEnum, text |-> vText, st |-> P.st, v |-> P.v])
=============================================================================
