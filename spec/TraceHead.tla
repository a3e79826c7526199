----------------------------- MODULE TraceHead -----------------------------
(***************************************************************************)
(* Validates a trace of real parses of documents with damaged headers:     *)
(*   {"op":"head","text":t,"open":"ok|err","closed":"ok|err","ver":v}      *)
(* open/closed: outcome with a body whose leaves are left open / closed.   *)
(***************************************************************************)
EXTENDS OfxHeader, OfxEmit
VARIABLES vLine
Trace == ndJsonDeserialize(IOEnv.TRACE)
Allowed(e) == LET r == ReadHead(e.text) IN
  CASE r.st = "free" -> e.open \in {"ok", "err"} /\ e.closed \in {"ok", "err"}
    [] r.st = "err"  -> e.open = "err" /\ e.closed = "err"
    [] OTHER         -> e.closed = "ok" /\ e.ver = r.ver /\ e.open = (IF r.sgml THEN "ok" ELSE "err")
Init == vLine = 1
Next == /\ vLine <= Len(Trace) /\ vLine' = vLine + 1
        /\ IF Allowed(Trace[vLine]) THEN TRUE ELSE Emit([line |-> vLine, event |-> Trace[vLine]])
Spec == Init /\ [][Next]_<<vLine>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
