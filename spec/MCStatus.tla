------------------------------ MODULE MCStatus ------------------------------
(***************************************************************************)
(* Every status code in a range, and codes that only look like known ones  *)
(* when cut to fewer bits, with every severity a server might send.        *)
(***************************************************************************)
EXTENDS OfxStatus, OfxEmit, FiniteSets, Integers
CONSTANTS Lo, Hi
VARIABLES vCode
Far == {"-9223372036854775808", "9223372036854775807", "4294967296", "4294969296", "4294967297", "65536", "67536", "281474976710656", "18446744073709", "-2000", "-1"}
Sevs == <<"INFO", "WARN", "ERROR", "", "info", "Error", "FATAL", "INFO ", "WARNING", "I">>
Init == vCode \in {ToString(n) : n \in Lo..Hi} \cup {ToString(c) : c \in KnownCodes} \cup Far
Next == FALSE /\ UNCHANGED vCode
Spec == Init /\ [][Next]_vCode
Texts == [c \in KnownCodes |-> ToString(c)]
Known == \E c \in KnownCodes : Texts[c] = vCode
Row == CHOOSE c \in KnownCodes : Texts[c] = vCode
Verdicts == [i \in 1..Len(Sevs) |-> Known /\ StatusValid(Row, Sevs[i])]
OneSeverity == Cardinality({i \in 1..Len(Sevs) : Verdicts[i]}) = (IF Known THEN 1 ELSE 0)
Emitted == Emit([op |-> "status", code |-> vCode, sevs |-> Sevs, oks |-> Verdicts, known |-> Known, meaning |-> IF Known THEN StatusMeaning(Row) ELSE ""])
=============================================================================
