----------------------------- MODULE TraceConc -----------------------------
(***************************************************************************)
(* Validates what callers that worked side by side got.  Events:           *)
(*   {"op":"ref","i":i,"res":r}      operation i alone, in its own process *)
(*   {"op":"done","i":i,"res":r,"at"}  the same with others at work        *)
(*   {"op":"race"|"died"|"stuck"|"twice","i":0,"res":text,"at"}             *)
(***************************************************************************)
EXTENDS OfxText, OfxEmit
VARIABLES vLine
Trace == ndJsonDeserialize(IOEnv.TRACE)
RefIx == {i \in 1..Len(Trace) : Trace[i].op = "ref"}
Ref == [n \in {Trace[i].i : i \in RefIx} |-> Trace[CHOOSE i \in RefIx : Trace[i].i = n].res]
Init == vLine = 1
Why(e) == CASE e.op = "ref" -> ""
            [] e.op = "done" -> IF e.res = Ref[e.i] THEN "" ELSE "other result than alone: " \o e.res \o ", alone: " \o Ref[e.i]
            [] OTHER -> e.op \o ": " \o e.res
Next == /\ vLine <= Len(Trace) /\ vLine' = vLine + 1
        /\ LET w == Why(Trace[vLine]) IN IF w = "" THEN TRUE ELSE Emit([line |-> vLine, event |-> [op |-> Trace[vLine].op, why |-> w, i |-> Trace[vLine].i, at |-> Trace[vLine].at]])
Spec == Init /\ [][Next]_<<vLine>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
