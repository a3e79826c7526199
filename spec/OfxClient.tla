----------------------------- MODULE OfxClient -----------------------------
(***************************************************************************)
(* One call of a client, as a transition system: the call is refused or    *)
(* connects, posts its document, and the server answers as it pleases.     *)
(* The client follows redirections, posts a second time if it is the       *)
(* Vanguard client and has reason to, and at last has an outcome.          *)
(*                                                                         *)
(* c      the call: [kind, call, url, valid, src]                          *)
(*        kind  basic, own (HTTP client of the caller), stay (the caller's *)
(*              HTTP client does not follow), veto (it refuses to follow), *)
(*              allow (it follows wherever it is sent, as often as it is), *)
(*              discover, vanguard                                         *)
(*        call  request, noparse, raw                                      *)
(*        src   buffer, stream: whether the document can be read again     *)
(* posts  everything servers have received: [srv, target, method, doc,     *)
(*        cookies, try]; doc: the document came along, cookies: how many   *)
(*        (-1: any)                                                        *)
(* script the answers given: [what, status, body, frame, cookies, to]      *)
(* out    [res, doc, whole]: doc is the number of the answer handed back   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Calls, Answers(_, _), MaxAnswers
VARIABLES vCall, vPhase, vTry, vPosts, vScript, vOut
vars == <<vCall, vPhase, vTry, vPosts, vScript, vOut>>

\* ---- addresses
Https  == {"tls", "query", "escaped", "nopath", "untrusted", "wronghost", "expired", "dead", "garbled", "tonowhere", "plainport"}
Others == {"plain", "upper", "empty", "bare", "ftp", "space", "httpslash", "noslashes"}    \* none of these begins with https://
Verified == {"tls", "query", "escaped", "nopath"}
Target(u) == CASE u = "query" -> "/ofx?fi=7&x=a%20b" [] u = "escaped" -> "/a%20b" [] u = "nopath" -> "/" [] OTHER -> "/ofx"

Follows(k) == k \in {"basic", "own", "allow", "vanguard"}
MaxHops == 10

\* ---- answers
NoAnswer == [what |-> "", status |-> 0, body |-> "", frame |-> "", cookies |-> 0, to |-> ""]
Redirects == {301, 302, 303, 307, 308}
IsRedirect(r) == r.status \in Redirects /\ r.to # ""
\* Nothing at all comes after the head of the answer.
NoBody(r) == r.body = "empty" /\ r.frame # "short"
Parseable(r) == r.body \in {"good", "big"} /\ r.frame # "short"

Init == /\ vCall \in Calls /\ vPhase = "start" /\ vTry = 1 /\ vPosts = <<>> /\ vScript = <<>> /\ vOut = [res |-> "", doc |-> 0, whole |-> FALSE]
Done(res, doc, whole) == vPhase' = "done" /\ vOut' = [res |-> res, doc |-> doc, whole |-> whole]
Fail == Done("error", 0, FALSE)
Post(srv, target, method, doc, cookies, n) ==
  /\ vPosts' = Append(vPosts, [srv |-> srv, target |-> target, method |-> method, doc |-> doc, cookies |-> cookies, try |-> n])
  /\ vPhase' = "wait" /\ UNCHANGED vOut
First(n, cookies) == Post("main", Target(vCall.url), "POST", TRUE, cookies, n)

Begin == /\ vPhase = "start" /\ UNCHANGED <<vCall, vTry, vScript>>
         /\ IF vCall.call # "raw" /\ ~vCall.valid THEN Fail /\ UNCHANGED vPosts
            ELSE IF vCall.url \notin Verified THEN Fail /\ UNCHANGED vPosts
            ELSE First(1, 0)

Last == vPosts[Len(vPosts)]
Hops == Cardinality({i \in 1..Len(vPosts) : vPosts[i].try = vTry})
Redirect(r) ==
  LET keep == r.status \in {307, 308}  doc == Last.doc /\ keep IN
  IF keep /\ vCall.src = "stream" THEN Fail /\ UNCHANGED vPosts    \* the document cannot be sent again
  ELSE IF Hops >= MaxHops /\ vCall.kind # "allow" THEN Fail /\ UNCHANGED vPosts
  ELSE IF r.to \notin {"same", "other"} THEN Fail /\ UNCHANGED vPosts                        \* plaintext, or nobody there to be trusted
  ELSE Post(IF r.to = "same" THEN Last.srv ELSE IF Last.srv = "main" THEN "other" ELSE "main", "/hop" \o ToString(Len(vPosts)),
            IF keep THEN Last.method ELSE "GET", doc, IF vTry = 1 THEN 0 ELSE -1, vTry)
Final(r) ==
  IF vCall.kind = "vanguard" /\ vCall.call # "raw" /\ vTry = 1 /\ r.status = 200 /\ NoBody(r) /\ r.cookies > 0
  THEN First(2, r.cookies) /\ vTry' = 2
  ELSE /\ UNCHANGED <<vPosts, vTry>>
       /\ IF r.status # 200 \/ (vCall.call = "request" /\ ~Parseable(r)) THEN Fail
          ELSE Done(IF vCall.call = "request" THEN "parsed" ELSE "raw", Len(vScript'), r.frame # "short")
Answer(r) ==
  /\ vPhase = "wait" /\ Len(vScript) < MaxAnswers
  /\ r.what = "hangup" => Last.method = "POST"     \* a GET without an answer may be tried again by the HTTP library
  /\ vScript' = Append(vScript, r) /\ UNCHANGED vCall
  /\ CASE r.what \in {"hangup", "garbage"} -> Fail /\ UNCHANGED <<vPosts, vTry>>
       [] IsRedirect(r) /\ Follows(vCall.kind) -> Redirect(r) /\ UNCHANGED vTry
       [] IsRedirect(r) /\ vCall.kind = "veto" -> Fail /\ UNCHANGED <<vPosts, vTry>>
       [] OTHER -> Final(r)
Next == Begin \/ \E r \in Answers(vCall, vScript) : Answer(r)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

\* ---- what the clients promise
\* C01: nothing goes to an address that is not a verified https server, and nothing at all when the URL is not https.
OnlyVerified == \A i \in 1..Len(vPosts) : vPosts[i].srv \in {"main", "other"}
Refused == vCall.url \notin Verified => vPosts = <<>>
\* C03: one post with the document; more only where a server said 307 or 308, never after it turned into a GET.
Posts(n) == Cardinality({i \in 1..Len(vPosts) : vPosts[i].try = n /\ vPosts[i].method = "POST"})
Asked(n) == Cardinality({i \in 1..Len(vScript) : i < Len(vPosts) /\ vPosts[i].try = n /\ vScript[i].status \in {307, 308}})
OnePost == /\ Posts(1) <= 1 + Asked(1) /\ Posts(2) <= 1 + Asked(2)
           /\ \A i \in 1..Len(vPosts) : vPosts[i].doc = (vPosts[i].method = "POST")
Invalid == vCall.call # "raw" /\ ~vCall.valid => vPosts = <<>>
Success == vOut.res \in {"parsed", "raw"} => /\ vPhase = "done" /\ vScript[Len(vScript)].status = 200 /\ vOut.doc = Len(vScript)
                                               /\ (vOut.res = "parsed" => Parseable(vScript[Len(vScript)]))
\* C04
Tries == \A i \in 1..Len(vPosts) : vPosts[i].try <= 2
Retry == \A i \in 2..Len(vPosts) : vPosts[i].try = 2 /\ vPosts[i - 1].try = 1 =>
            /\ vCall.kind = "vanguard" /\ vCall.call # "raw" /\ vScript[i - 1].status = 200 /\ NoBody(vScript[i - 1])
            /\ vPosts[i].cookies = vScript[i - 1].cookies /\ vPosts[i].cookies > 0
NoHops == vCall.kind \in {"discover", "stay", "veto"} => Len(vPosts) <= 1
Bounded == vCall.kind = "allow" \/ Len(vPosts) <= 2 * MaxHops
Finishes == <>(vPhase = "done" \/ Len(vScript) = MaxAnswers)
=============================================================================
