------------------------------ MODULE MCClient ------------------------------
(***************************************************************************)
(* Behaviours of OfxClient for the harness, which plays the servers.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, OfxEmit
CONSTANTS Kinds, CallNames, Urls, Kind0, Max0, OneIn
VARIABLES vCall, vPhase, vTry, vPosts, vScript, vOut
TE == INSTANCE TLCExt

A(what, status, body, frame, cookies, to) == [what |-> what, status |-> status, body |-> body, frame |-> frame, cookies |-> cookies, to |-> to]
Bodies == {"good", "invalid", "junk", "empty", "line", "cut"}
Frames(c0) == {"cl", "chunked", "close", "short"} \cup (IF c0.kind = "discover" THEN {} ELSE {"gzip"})
Oks(c0) == {A("", 200, b, f, k, "") : b \in Bodies, f \in Frames(c0), k \in 0..3}
           \cup {A("", 200, "big", f, 1, "") : f \in Frames(c0)}      \* more than a million bytes
Codes == {201, 202, 206, 226, 299, 300, 400, 401, 403, 404, 407, 410, 418, 429, 500, 502, 503, 511}
Fails == {A("", s, b, "cl", k, "") : s \in Codes, b \in {"good", "empty"}, k \in {0, 2}} \cup {A("", s, "empty", "none", 1, "") : s \in {204, 304}}
         \cup {A("", s, "large", f, 1, "") : s \in {400, 500}, f \in {"cl", "chunked"}}
         \cup {A("", s, b, f, 1, "") : s \in {302, 307}, b \in {"good", "empty"}, f \in {"cl", "chunked"}}
Moves == {A("", s, b, "cl", k, t) : s \in {301, 302, 303, 307, 308}, b \in {"empty", "good"}, k \in {0, 1}, t \in {"same", "other", "plain", "untrusted", "dead", "junk"}}
         \cup {A("", s, "large", "cl", 1, t) : s \in {302, 307}, t \in {"same", "other", "plain"}}
Broken == {A("hangup", 0, "", "", 0, ""), A("garbage", 0, "", "", 0, "")}
\* A few of each, where the whole set would be too much.
FewOks == {A("", 200, b, "cl", k, "") : b \in {"good", "empty", "junk"}, k \in {0, 2}} \cup {A("", 200, "empty", f, 1, "") : f \in {"chunked", "close", "short"}} \cup {A("", 200, "empty", "cl", 3, ""), A("", 200, "line", "cl", 2, ""), A("", 200, "line", "close", 1, "")}
          \cup {A("", 200, "good", "chunked", 1, ""), A("", 200, "invalid", "cl", 0, "")}
FewFails == {A("", 500, "good", "cl", 1, ""), A("", 403, "empty", "cl", 2, ""), A("", 204, "empty", "none", 1, "")} \cup Broken
FewMoves == {A("", s, "empty", "cl", k, t) : s \in {302, 307}, k \in {0, 1}, t \in {"same", "other", "plain", "untrusted"}}
Hops_ == {A("", s, "empty", "cl", 0, t) : s \in {302, 307, 308}, t \in {"same", "other"}}
All(c0, s) == Oks(c0) \cup Fails \cup Moves \cup Broken
Few(c0, s) == FewOks \cup FewFails \cup FewMoves
FirstAll(c0, s) == IF s = <<>> THEN All(c0, s) ELSE Few(c0, s)
\* The longest chains: redirected again and again.
Chain(c0, s) == IF s = <<>> THEN Hops_ ELSE IF Len(s) < 11 THEN {s[Len(s)]} ELSE FewOks
Answers0(c0, s) == CASE Kind0 = "first" -> FirstAll(c0, s) [] Kind0 = "few" -> Few(c0, s) [] Kind0 = "chain" -> Chain(c0, s) [] Kind0 = "sim" -> (IF Len(s) % 2 = 0 THEN All(c0, s) ELSE Few(c0, s) \cup Hops_)

Calls0 == {x \in [kind : Kinds, call : CallNames, url : Urls, valid : BOOLEAN, src : {"buffer", "stream"}] :
             /\ x.call = "raw" => x.valid
             /\ x.call # "raw" => x.src = "buffer"
             /\ ~x.valid => x.url \in {"tls", "plain"}}
INSTANCE OfxClient WITH Calls <- Calls0, Answers <- Answers0, MaxAnswers <- Max0

Emitted == vPhase = "done" /\ TE!TLCFP(<<vCall, vScript>>) % OneIn = 0 =>
  Emit([c |-> vCall, target |-> Target(vCall.url), posts |-> vPosts, script |-> vScript, out |-> vOut])
=============================================================================
