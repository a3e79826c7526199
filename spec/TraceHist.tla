----------------------------- MODULE TraceHist -----------------------------
(***************************************************************************)
(* Validates recorded marshals.  Events:                                   *)
(*   {"op":"ref","id":i,"hash":h}       by a process that did nothing else *)
(*   {"op":"marshal","id":i,"want":b,"ok":b,"hash":h,"changed":[[path,from,to]]} *)
(*   {"op":"again","id":i,"hash":h}     the same buffer, at the end        *)
(***************************************************************************)
EXTENDS OfxText, OfxEmit
VARIABLES vLine
Trace == ndJsonDeserialize(IOEnv.TRACE)
RefIx == {i \in 1..Len(Trace) : Trace[i].op = "ref"}
Ref == [id \in {Trace[i].id : i \in RefIx} |-> Trace[CHOOSE i \in RefIx : Trace[i].id = id].hash]
\* The only things a marshal may fill in.
Fills(c) == (c[1] = "Signon.Language" /\ c[2] = "" /\ c[3] = "ENG") \/ (HasSuffix(c[1], ".ClientRouting") /\ c[3] = "NONE")
Why(e) ==
  CASE e.op = "ref" -> IF e.hash = "" THEN "cannot be marshalled by a process of its own" ELSE ""
    [] e.op = "marshal" -> IF e.ok # e.want THEN (IF e.ok THEN "must fail" ELSE "must succeed")
                           ELSE IF e.ok /\ e.hash # Ref[e.id] THEN "other bytes than the object gives in a process of its own"
                           ELSE IF \E i \in 1..Len(e.changed) : ~Fills(e.changed[i]) THEN "changes the object: " \o ToString(e.changed)
                           ELSE ""
    [] e.op = "again" -> IF e.hash # Ref[e.id] THEN "the document changed after it was returned" ELSE ""
Init == vLine = 1
Next == /\ vLine <= Len(Trace) /\ vLine' = vLine + 1
        /\ LET w == Why(Trace[vLine]) IN IF w = "" THEN TRUE ELSE Emit([line |-> vLine, event |-> [op |-> Trace[vLine].op, why |-> w, id |-> Trace[vLine].id, at |-> Trace[vLine].at]])
Spec == Init /\ [][Next]_<<vLine>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
