----------------------------- MODULE TraceLeaf -----------------------------
(***************************************************************************)
(* Validates a trace recorded from the real leaf codecs.  Events:          *)
(*   {"op":"decode","kind":k,"text":t,"ok":b,"v":canonical}                *)
(*   {"op":"print","kind":k,"v":canonical,"text":t}                        *)
(*   {"op":"uid","n":bytes,"valid":b,"u":text,"rec":b}                     *)
(*   {"op":"uidrandom","u":text}     {"op":"uidspread","counts":[36]}      *)
(* An event the specification does not allow is emitted and skipped, so    *)
(* that the rest of the trace is judged too.                               *)
(***************************************************************************)
EXTENDS OfxLeaf, OfxEmit
VARIABLES vLine, vSeen

Trace == ndJsonDeserialize(IOEnv.TRACE)

DecodeOk(e) == LET p == Parse(e.kind, e.text) IN
  CASE p.st = "free" -> TRUE
    [] p.st = "bad"  -> ~e.ok
    [] OTHER         -> e.ok /\ e.v = p.v

Allowed(e) ==
  CASE e.op = "decode"    -> DecodeOk(e)
    [] e.op = "print"     -> /\ Writes(e.kind, e.v, e.text)
                             /\ FindAny(e.wire, {"<", ">"}) = 0       \* markup never reaches the wire unescaped
    [] e.op = "uid"       -> /\ e.valid = UidValid(e.n)
                             /\ e.rec = (e.n = Len(e.u) /\ UidRecommended(e.u))
    [] e.op = "uidrandom" -> UidRandomShape(e.u) /\ e.u \notin vSeen
    \* distinct characters seen at each of the 36 places of many random UIDs: all 16 digits, but for the hyphens
    [] e.op = "uidspread" -> \A i \in 1..36 : e.counts[i] = (IF i \in {9, 14, 19, 24} THEN 1 ELSE 16)

Init == vLine = 1 /\ vSeen = {}
Next == /\ vLine <= Len(Trace)
        /\ vLine' = vLine + 1
        /\ vSeen' = IF Trace[vLine].op = "uidrandom" THEN vSeen \cup {Trace[vLine].u} ELSE vSeen
        /\ IF Allowed(Trace[vLine]) THEN TRUE ELSE Emit([line |-> vLine, event |-> Trace[vLine]])
Spec == Init /\ [][Next]_<<vLine, vSeen>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
