------------------------------ MODULE TraceDoc ------------------------------
(***************************************************************************)
(* Validates a trace of real parses of damaged documents.  Events:         *)
(*   {"op":"parse","out":"ok|err|both|nil|panic|hang","ver":n,"ended":b,   *)
(*    "toks":[...],"clean":b,"proj":{...}}                                 *)
(* ended: the text contains </OFX>; toks: the tokens the text consists of, *)
(* when clean (nothing but plain tags and text).  The tokens are fed to    *)
(* the reader of the specification and its verdict and projection compared. *)
(***************************************************************************)
EXTENDS OfxReader, OfxEmit
VARIABLES vLine
Trace == ndJsonDeserialize(IOEnv.TRACE)

RECURSIVE RunToks(_, _, _)
RunToks(r, toks, i) == IF i > Len(toks) \/ r.st # "run" THEN r ELSE RunToks(Step(r, toks[i]), toks, i + 1)
ProjOf(e) == IF DOMAIN e.proj = {} THEN NoMap ELSE e.proj
Allowed(e) ==
  /\ e.out \in {"ok", "err"}                  \* never a panic, a hang, or a response together with an error
  /\ e.out = "ok" => e.ended
  /\ e.clean => LET r == AtEof(RunToks(Start0(e.ver < 200), e.toks, 1)) IN
       CASE r.st = "free" -> TRUE
         [] r.st = "err"  -> e.out = "err"
         [] OTHER         -> e.out = "ok" /\ ProjOf(e) = r.proj

Init == vLine = 1
Next == /\ vLine <= Len(Trace)
        /\ vLine' = vLine + 1
        /\ IF Allowed(Trace[vLine]) THEN TRUE ELSE Emit([line |-> vLine, event |-> Trace[vLine]])
Spec == Init /\ [][Next]_<<vLine>>
Consumed == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
