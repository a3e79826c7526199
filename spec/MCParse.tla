------------------------------ MODULE MCParse ------------------------------
(***************************************************************************)
(* Well-formed response documents whose content breaks any number of the   *)
(* rules of validity.  Each is emitted with the number of invalid parts    *)
(* (the signon, every message) that ParseResponse has to report.           *)
(***************************************************************************)
EXTENDS MCDoc, OfxValid
Rules(seeds, dens, nsets, valid, vers) ==
  {[id |-> "o" \o ToString(n), seed |-> n, plan |-> RandPlan(nsets, Seed0(n)), m |-> M("odd", "", 0, 0, dens, valid, v),
    style |-> [v |-> v, omit |-> "none", ws |-> 1], ver |-> v] : n \in seeds, v \in vers}
Parts == BadParts(Verdict.proj, vDoc.ver)
NMsgs == Len(Messages(Verdict.proj))
\* ---- properties of the specification: the count stays in range and never falls when more is forbidden.
InRange == End => Verdict.st = "ok" /\ Parts \in 0..(NMsgs + 1)
Laxer == End => \A i \in 1..(Len(OfxVersions) - 1) : BadParts(Verdict.proj, OfxVersions[i]) >= BadParts(Verdict.proj, OfxVersions[i + 1])
EmittedBad == End => Emit([op |-> "parse", id |-> vDoc.id, ver |-> vDoc.ver, toks |-> vSent, st |-> Verdict.st, proj |-> Verdict.proj, fault |-> "", bad |-> Parts])
=============================================================================
