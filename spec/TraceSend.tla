----------------------------- MODULE TraceSend -----------------------------
(***************************************************************************)
(* Validates recorded sends.  Events:                                      *)
(* {"op":"send", "map": the owner's fields, "ok": must it be sent,         *)
(*  "ver","id","appver","indent","cr": the client's settings,              *)
(*  "sent": was it sent, "doc": the document as the server got it,         *)
(*  "lo","hi": <<day, ms>> before and after, "after": [ver,id,appver,dt]:  *)
(*  the request's fields afterwards}                                       *)
(***************************************************************************)
EXTENDS OfxWire, OfxEmit
VARIABLES vLine
Trace == ndJsonDeserialize(IOEnv.TRACE)
MapIs(x) == IF DOMAIN x = {} THEN NoMap ELSE x
\* days are beyond 10000: every <<day, ms>> fits into "day:ms"
SplitAt(v) == FindAny(v, {":"})
InstantOf(v) == LET i == SplitAt(v) IN <<NatOf(SubSeq(v, 1, i - 1)), NatOf(SubSeq(v, i + 1, Len(v)))>>
Within(v, lo, hi) == LET x == InstantOf(v)  Le(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2]) IN Le(lo, x) /\ Le(x, hi)
Stamp(p) == LET I == {i \in 1..Len(p) : p[i][1] = "L" /\ p[i][2] = "DTCLIENT"} IN IF I = {} THEN "" ELSE Trim(p[CHOOSE i \in I : TRUE][3])
Why(e) ==
  IF ~e.ok THEN IF e.sent THEN "must not be sent" ELSE ""
  ELSE IF ~e.sent THEN "was not sent"
  ELSE LET d == e.doc  p == NoHollow(Parts(d.toks, 1))  dt == Stamp(p)  v == Parse("date", dt) IN
    IF ~d.clean THEN "not a sequence of tags and text"
    ELSE IF ~HeadFor(d.head, ToString(e.ver), e.cr) THEN "header"
    ELSE IF dt = "" \/ v.st # "ok" \/ SplitAt(v.v) < 2 THEN "DTCLIENT " \o dt
    ELSE IF ~Within(v.v, e.lo, e.hi) THEN "DTCLIENT is " \o v.v \o ", sent between " \o ToString(e.lo) \o " and " \o ToString(e.hi)
    ELSE IF ~Ended(d.toks, e.cr) THEN "line ends"
    ELSE IF e.indent /\ ~LaidOut(d.toks, e.cr) THEN "not indented"
    ELSE IF ~e.indent /\ ~Compact(d.toks) THEN "white space"
    ELSE LET m == ("Signon.AppID" :> e.id) @@ ("Signon.AppVer" :> e.appver) @@ ("Signon.DtClient" :> v.v) @@ MapIs(e.map)
             c == NoHollow(Content("rq", m))  n == Differ(p, c, e.ver >= 200)
         IN IF n # 0 THEN "item " \o ToString(n) \o " is " \o (IF n > Len(p) THEN "missing" ELSE ToString(p[n])) \o ", must be " \o (IF n > Len(c) THEN "the end" ELSE ToString(c[n]))
            ELSE IF e.after # [ver |-> e.ver, id |-> e.id, appver |-> e.appver, dt |-> v.v] THEN "afterwards the request says " \o ToString(e.after)
            ELSE ""
Init == vLine = 1
Next == /\ vLine <= Len(Trace) /\ vLine' = vLine + 1
        /\ LET w == Why(Trace[vLine]) IN IF w = "" THEN TRUE ELSE Emit([line |-> vLine, event |-> [op |-> Trace[vLine].op, why |-> w, id |-> Trace[vLine].at]])
Spec == Init /\ [][Next]_<<vLine>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
