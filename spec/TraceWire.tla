----------------------------- MODULE TraceWire -----------------------------
(***************************************************************************)
(* Validates documents the real code wrote.  A document d:                 *)
(*   [ver, indent, cr, ok (marshalled), clean (nothing but tags and text), *)
(*    head (all before <OFX>), toks]                                       *)
(* Events: {"op":"doc","side":s,"map":projection,"doc":d}                  *)
(*         {"op":"variants","docs":[d, ...]}                               *)
(***************************************************************************)
EXTENDS OfxWire, OfxEmit
VARIABLES vLine
Trace == ndJsonDeserialize(IOEnv.TRACE)

MapOf(x) == IF DOMAIN x = {} THEN NoMap ELSE x
Why(e) ==
  CASE e.op = "doc" ->
         LET d == e.doc IN
         IF ~d.ok THEN "not marshalled" ELSE IF ~d.clean THEN "not a sequence of tags and text"
         ELSE IF ReadHead(d.head).st # "ok" \/ ReadHead(d.head).ver # ToString(d.ver) THEN "header"
         ELSE LET c == NoHollow(Content(e.side, MapOf(e.map)))  p == NoHollow(Parts(d.toks, 1))  n == Differ(p, c, d.ver >= 200) IN
              IF n = 0 THEN ""
              ELSE "item " \o ToString(n) \o " is " \o (IF n > Len(p) THEN "missing" ELSE ToString(p[n])) \o ", must be " \o (IF n > Len(c) THEN "the end" ELSE ToString(c[n]))
    [] e.op = "variants" ->
         LET Bad_(d) ==
               IF ~d.ok THEN "not marshalled" ELSE IF ~d.clean THEN "not a sequence of tags and text"
               ELSE IF ~HeadFor(d.head, ToString(d.ver), d.cr) THEN "header"
               ELSE IF Plainly(Parts(d.toks, 1)) # Plainly(Parts(e.docs[1].toks, 1)) THEN "content differs"
               ELSE IF \E x \in RangeOf(Parts(d.toks, 1)) : x[1] = "L" /\ x[4] # (d.ver >= 200) THEN "leaf ends"
               ELSE IF ~Ended(d.toks, d.cr) THEN "line ends"
               ELSE IF d.indent /\ ~LaidOut(d.toks, d.cr) THEN "not indented"
               ELSE IF ~d.indent /\ ~Compact(d.toks) THEN "white space"
               ELSE ""
             B == {i \in 1..Len(e.docs) : Bad_(e.docs[i]) # ""}
         IN IF B = {} THEN "" ELSE LET i == CHOOSE i \in B : TRUE  d == e.docs[i] IN
              Bad_(d) \o " in version " \o ToString(d.ver) \o (IF d.indent THEN " indented" ELSE "") \o (IF d.cr THEN " with carriage returns" ELSE "")
Init == vLine = 1
Next == /\ vLine <= Len(Trace) /\ vLine' = vLine + 1
        /\ LET w == Why(Trace[vLine]) IN IF w = "" THEN TRUE ELSE Emit([line |-> vLine, event |-> [op |-> Trace[vLine].op, why |-> w, id |-> Trace[vLine].id]])
Spec == Init /\ [][Next]_<<vLine>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
