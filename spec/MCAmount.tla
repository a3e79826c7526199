------------------------------ MODULE MCAmount ------------------------------
(***************************************************************************)
(* Amounts: every combination of sign, integer part, separator and         *)
(* fraction is one number; equality of two amounts is equality of numbers. *)
(* "pair" states compare two spellings.                                    *)
(***************************************************************************)
EXTENDS OfxLeaf, OfxEmit
CONSTANTS Signs, Ints, Seps, Fracs, Pairs
VARIABLES vPhase, vSent, vText
vars == <<vPhase, vSent, vText>>
Spell(sg, i, p, f) == sg \o i \o p \o f
Texts == {Spell(sg, i, p, f) : sg \in Signs, i \in Ints, p \in Seps, f \in Fracs}
PairTexts == {Spell(sg, i, p, f) : sg \in Signs, i \in {"", "0", "1", "10", "01"}, p \in Seps, f \in {"", "0", "1", "10", "01", "5"}}
Init == \/ vPhase = "one" /\ vSent \in Texts /\ vText = ""
        \/ Pairs /\ vPhase = "pair" /\ vSent \in {x \in PairTexts : ParseAmt(x).st = "ok"} /\ vText = ""
Other == vPhase = "pair" /\ vText = "" /\ vText' \in {x \in PairTexts : ParseAmt(x).st = "ok"} /\ UNCHANGED <<vPhase, vSent>>
Next == Other
Spec == Init /\ [][Next]_vars
P == ParseAmt(vSent)
RoundTrip == vPhase = "one" /\ P.st = "ok" => ParseAmt(P.v) = P
Canonical == vPhase = "one" /\ P.st = "ok" => /\ ~HasSuffix(P.v, ".") /\ P.v # "-0"
                                              /\ Find(P.v, ".") > 0 => ~HasSuffix(P.v, "0")
Emitted == CASE vPhase = "one" -> Emit([op |-> "decode", kind |-> "amt", text |-> vSent, st |-> P.st, v |-> P.v])
             [] vPhase = "pair" /\ vText # "" -> Emit([op |-> "amteq", kind |-> "amt", text |-> vSent, name |-> vText, eq |-> (P.v = ParseAmt(vText).v)])
             [] OTHER -> TRUE
=============================================================================
