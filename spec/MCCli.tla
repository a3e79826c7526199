------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* Runs of the ofx tool: a command with flags, the answer of the server,   *)
(* and what has to come of it.                                             *)
(***************************************************************************)
EXTENDS OfxWriter, OfxCli, OfxEmit
CONSTANTS Cases    \* set of cases, see the families below
VARIABLES run, outc
vars == <<run, outc>>
M(kind, ta, ti, tj, dens, ver) == [kind |-> kind, ta |-> ta, ti |-> ti, tj |-> tj, dens |-> dens, valid |-> TRUE, ver |-> ver]
Style(v, omit, ws) == [v |-> v, omit |-> omit, ws |-> ws]

\* ---- answers: a document, with the status codes of its signon and its messages, with or without the body of its messages
SetOf == [cmd \in Lists |-> CASE cmd = "transactions-bank" -> 2 [] cmd = "transactions-cc" -> 3 [] cmd = "transactions-inv" -> 5 [] OTHER -> 1]
Root == [cmd \in Lists |-> RsSets[SetOf[cmd]].msgs[1].a]
Bodies == {"+STMTRS", "+CCSTMTRS", "+INVSTMTRS", "+ACCTINFORS"}
Recode(ev, sc, mc) ==
  LET One(acc, e) ==
        IF e[1] = "L" /\ e[2] = "CODE" THEN [n |-> acc.n + 1, ev |-> Append(acc.ev, <<"L", "CODE", ToString(IF acc.n = 0 THEN sc ELSE mc)>>)]
        ELSE IF e[1] = "L" /\ e[2] = "SEVERITY" THEN [n |-> acc.n, ev |-> Append(acc.ev, <<"L", "SEVERITY", SeverityOf[ToString(IF acc.n = 1 THEN sc ELSE mc)]>>)]
        ELSE [acc EXCEPT !.ev = Append(@, e)]
  IN SE!FoldLeft(One, [n |-> 0, ev |-> <<>>], ev).ev
NoBody(ev) ==
  LET One(acc, e) ==
        IF acc.deep # "" THEN [acc EXCEPT !.deep = IF e[1] = "E" /\ e[2] = acc.deep THEN "" ELSE @]
        ELSE IF e[1] = "S" /\ "+" \o e[2] \in Bodies THEN [acc EXCEPT !.deep = e[2]]
        ELSE [acc EXCEPT !.ev = Append(@, e)]
  IN SE!FoldLeft(One, [deep |-> "", ev |-> <<>>], ev).ev
Doc(d) ==
  LET e == Recode(GenDoc(d.seed, d.plan, d.m).ev, d.sc, d.mc) IN Spell(IF d.body THEN e ELSE NoBody(e), d.style, d.seed)

\* what the server does
Ok200 == [what |-> "answer", status |-> 200, body |-> "doc", frame |-> "cl"]
Answers == {[Ok200 EXCEPT !.what = "hangup"], [Ok200 EXCEPT !.what = "garbage"], [Ok200 EXCEPT !.frame = "short"]}
           \cup {[Ok200 EXCEPT !.status = s, !.body = b] : s \in {400, 403, 404, 500, 503}, b \in {"doc", "junk", "empty"}}
           \cup {[Ok200 EXCEPT !.body = b, !.frame = f] : b \in {"junk", "empty", "cut", "binary"}, f \in {"cl", "chunked", "close"}}
Replies == {[Ok200 EXCEPT !.body = b, !.frame = f] : b \in {"doc", "junk", "empty", "cut", "binary", "large", "big"}, f \in {"cl", "chunked", "close"}}

Flags0 == [url |-> "tls", username |-> "a user", password |-> "s3cret", bankid |-> "B-1", acctid |-> "A 2", brokerid |-> "br.example"]
Case(cmd, f, ans, file, dry, doc) == [cmd |-> cmd, f |-> f, ans |-> ans, file |-> file, dry |-> dry, doc |-> doc]
NoDoc == <<>>

Knows(cmd, n) ==
  CASE n \in {"bankid", "accttype"} -> Asks[cmd] = "bank"
    [] n = "acctid" -> Asks[cmd] \in {"bank", "cc", "inv"}
    [] n = "brokerid" -> Asks[cmd] = "inv"
    [] n = "filename" -> cmd \in Downloads
    [] OTHER -> TRUE
Fit(cmd, f) == [n \in {n \in DOMAIN f : Knows(cmd, n)} |-> f[n]]

\* ---- families of listings
D(seed, plan, m, style, sc, mc, body) == <<[seed |-> seed, plan |-> plan, m |-> m, style |-> style, sc |-> sc, mc |-> mc, body |-> body]>>
Own(cmd) == <<<<SetOf[cmd], <<1>>>>>>
List(cmd, doc) == Case(cmd, Fit(cmd, Flags0), Ok200, "none", FALSE, doc)
\* every element of the statement
Wanted(cmd, every, sd) ==
  {t \in Reach[Root[cmd]] \X (1..60) \X (0..24) :
     /\ t[2] <= Len(Schema[t[1]])
     /\ t[3] < (IF Schema[t[1]][t[2]].k = "mix" THEN Len(Mix[Schema[t[1]][t[2]].a]) ELSE 1)
     /\ (Schema[t[1]][t[2]].k = "mix" \/ (Len(t[1]) + 7 * t[2] + sd) % every = 0)}
TargetLists(cmds, every, sd) ==
  UNION {{List(cmd, D(sd + 7 * t[2] + 131 * t[3] + Len(t[1]), Own(cmd), M("target", t[1], t[2], t[3], 0, 220), Style(220, "none", 1), 0, 0, TRUE)) : t \in Wanted(cmd, every, sd)} : cmd \in cmds}
RandLists(cmds, lo, hi, dens) ==
  {List(cmd, D(n, Own(cmd), M("rand", "", 0, 0, dens, 220), IF n % 2 = 0 THEN Style(220, "none", n % 4) ELSE Style(160, IF n % 3 = 0 THEN "all" ELSE "mix", n % 4), 0, 0, TRUE)) : cmd \in cmds, n \in lo..hi}
\* every aggregate of the statement several times where that is possible, all else at random
NearLists(cmds, lo, hi, dens) ==
  UNION {{List(cmd, D(n + 17 * Len(ta), Own(cmd), M("near", ta, 0, 0, dens, 220), IF n % 2 = 0 THEN Style(220, "none", n % 4) ELSE Style(160, IF n % 3 = 0 THEN "all" ELSE "mix", n % 4), 0, 0, TRUE)) :
      ta \in Reach[Root[cmd]], n \in lo..hi} : cmd \in cmds}
PlainLists(cmds, sd) ==
  {List(cmd, D(sd, Own(cmd), M(k, "", 0, 0, 0, v), Style(v, "none", 1), 0, 0, TRUE)) : cmd \in cmds, k \in {"min", "all"}, v \in {102, 203, 220}}
\* other message sets around it, several messages, none at all
Around(cmd) == {<<<<SetOf[cmd], <<1, 1>>>>>>, <<<<13, <<1>>>>>> \o Own(cmd) \o <<<<10, <<1>>>>>>, <<<<SetOf[cmd], <<>>>>>>, <<>>, <<<<(SetOf[cmd] % 3) + 1, <<1>>>>>>,
                <<<<SetOf[cmd], <<>>>>>> \o Own(cmd)}
AroundLists(cmds, sd) == UNION {{List(cmd, D(sd, p, M("rand", "", 0, 0, 30, 203), Style(203, "none", 1), 0, 0, TRUE)) : p \in Around(cmd)} : cmd \in cmds}
\* every status of the signon and of the message, with and without a body
CodeLists(cmds, sd, every) ==
  {List(cmd, D(sd, Own(cmd), M("rand", "", 0, 0, 15, 203), Style(203, "none", 1), sc, mc, b)) :
      cmd \in cmds, b \in BOOLEAN, <<sc, mc>> \in {<<StatusCodes[i], 0>> : i \in {i \in 1..Len(StatusCodes) : (i + sd) % every = 0 \/ StatusCodes[i] < 2}}
                                            \cup {<<0, StatusCodes[i]>> : i \in {i \in 1..Len(StatusCodes) : (i + sd) % every = 0 \/ StatusCodes[i] < 2}}}
\* answers that are none
FailLists(cmds, sd) ==
  {Case(cmd, Fit(cmd, Flags0), a, "none", FALSE, D(sd, Own(cmd), M("min", "", 0, 0, 0, 203), Style(203, "none", 1), 0, 0, TRUE)) : cmd \in cmds, a \in Answers}
  \cup {Case(cmd, Fit(cmd, [Flags0 EXCEPT !.url = u]), Ok200, "none", FALSE, D(sd, Own(cmd), M("min", "", 0, 0, 0, 203), Style(203, "none", 1), 0, 0, TRUE)) :
          cmd \in cmds, u \in {"dead", "plain", "untrusted", "empty", "garbled"}}

\* ---- families of requests: every value of every flag, and all pairs the seed picks
Values == << <<"username", <<"", "u", Rep("u", 32), Rep("u", 33), "A&B<c>", "u~e~", "00123">>>>,
             <<"password", <<"", "p", Rep("p", 32), Rep("p", 33), "\"'&<>", "~e~">>>>,
             <<"org", <<"", "ORG", "O & G", "~e~">>>>, <<"fid", <<"", "1987", "<1>">>>>,
             <<"appid", <<"", "QWIN", "OFXGO", "SIXSIX", "Q", "~e~", "A&B">>>>, <<"appver", <<"", "2400", "12345", "1", "0001">>>>,
             <<"ofxversion", [i \in 1..Len(OfxVersions) |-> ToString(OfxVersions[i])] \o <<"104", "", "abc", "2030">>>>,
             <<"clientuid", <<"", "uid-1", Rep("c", 36)>>>>, <<"noindent", <<"true">>>>, <<"carriagereturn", <<"true">>>>,
             <<"useragent", <<"", "Agent/1.0 (x; y)">>>>, <<"bankid", <<"", "121000248", "B<&>", "~e~">>>>,
             <<"acctid", <<"", "00012345", "A&A", "a  b">>>>, <<"accttype", EnumNames["AcctType"] \o <<"", "NOSUCH">>>>,
             <<"brokerid", <<"", "broker.com", "<&>">>>>, <<"filename", <<"">>>>, <<"url", <<"empty">>>> >>
Singles == UNION {{(Values[i][1] :> Values[i][2][j]) : j \in 1..Len(Values[i][2])} : i \in 1..Len(Values)}
\* Several flags at once; one of them may be left out.
Multi(x) ==
  LET RECURSIVE Go_(_, _)
      Go_(i, y) == IF i > Len(Values) - 2 THEN NoMap
                   ELSE LET z == Rnd(y)  vs == Values[i][2]  rest == Go_(i + 1, z) IN
                        IF z % 3 = 0 THEN rest ELSE (Values[i][1] :> vs[((z \div 3) % Len(vs)) + 1]) @@ rest
  IN Go_(1, Seed0(x))
Drop(f, n) == [k \in DOMAIN f \ {n} |-> f[k]]
Asking(cmds, extra, file, dry) == {Case(cmd, Fit(cmd, x @@ Flags0), Ok200, file, dry, NoDoc) : cmd \in cmds, x \in extra}
Without(cmds, file, dry) == {Case(cmd, Fit(cmd, Drop(Flags0, n)), Ok200, file, dry, NoDoc) : cmd \in cmds, n \in DOMAIN Flags0}
Multis(lo, hi) == {Multi(x) : x \in lo..hi}
\* Few of the multis are sendable; these are, mostly.
Tame(f) == [n \in {n \in DOMAIN f : ~(n \in {"username", "password", "appid", "appver"} /\ (f[n] = "" \/ Len(f[n]) > 5)) /\ ~(n \in {"ofxversion", "accttype"} /\ f[n] \in {"", "104", "abc", "2030", "NOSUCH"})
                               /\ ~(n \in {"bankid", "acctid"} /\ f[n] = "")} |-> f[n]]
Tames(lo, hi) == {Tame(Multi(x)) : x \in lo..hi}
\* ---- downloads: every reply, every kind of file
Saving(cmds, files) ==
  {Case(cmd, Fit(cmd, Flags0), a, file, FALSE, NoDoc) : cmd \in cmds, a \in Replies \cup Answers, file \in files}
  \cup {Case(cmd, Fit(cmd, [Flags0 EXCEPT !.url = u]), Ok200, file, FALSE, NoDoc) : cmd \in cmds, u \in {"dead", "plain", "untrusted", "garbled"}, file \in files}
  \cup {Case(cmd, Fit(cmd, Flags0), Ok200, file, FALSE, NoDoc) : cmd \in cmds, file \in {"nodir", "isdir", "full", "default"}}

\* ---- what has to come of it
Reached(f) == f.url = "tls"
Fails(a) == a.what # "answer" \/ a.status # 200
Want(x, toks, p) ==
  LET sendable == Sendable(x.cmd, x.f) /\ ("url" \in DOMAIN x.f => x.f.url # "empty") IN
  IF ~sendable THEN "fail"
  ELSE IF x.dry THEN "dry"
  ELSE IF ~Reached(x.f) \/ Fails(x.ans) THEN "fail"
  ELSE IF x.cmd \in Downloads
       THEN IF x.file \in {"nodir", "isdir", "full"} \/ x.ans.frame = "short" THEN "fail" ELSE "save"
  ELSE IF x.doc = NoDoc THEN "open"
  ELSE IF x.ans.frame = "short" \/ x.ans.body # "doc" THEN "fail"
  ELSE IF p.st # "ok" THEN "unread"
  ELSE Outcome(x.cmd, p.proj, x.doc[1].style.v, \E i \in 1..Len(toks) : toks[i] \in Bodies)

Sends(x) == Sendable(x.cmd, x.f) /\ ~x.dry /\ Reached(x.f)
Entries(x, want, p) == IF want \in {"list", "either"} THEN Listing(x.cmd, p.proj) ELSE <<>>
Result(x) ==
  LET toks == IF x.doc = NoDoc THEN <<>> ELSE Doc(x.doc[1])
      p == IF x.doc = NoDoc THEN Start0(FALSE) ELSE ReadAll(Start0(x.doc[1].style.v < 200), toks)
      want == Want(x, toks, p)
  IN [op |-> "cli", cmd |-> x.cmd, f |-> x.f, ans |-> x.ans, file |-> x.file, dry |-> x.dry, ver |-> IF x.doc = NoDoc THEN 203 ELSE x.doc[1].style.v, toks |-> toks,
      want |-> want, entries |-> Entries(x, want, p), sends |-> Sends(x),
      \* the output file afterwards: "kept" as it was, "reply", or "open"
      after |-> IF want = "save" THEN "reply"
                ELSE IF x.dry \/ ~Sends(x) \/ Fails(x.ans) THEN "kept" ELSE "open"]
Init == run \in Cases /\ outc = <<>>
Next == outc = <<>> /\ outc' = <<Result(run)>> /\ UNCHANGED run
Spec == Init /\ [][Next]_vars
\* ---- properties of the specification
Readable == outc # <<>> => outc[1].want # "unread"
Whole == outc # <<>> /\ outc[1].want = "list" /\ outc[1].cmd # "get-accounts" /\ outc[1].cmd # "transactions-inv" => Len(outc[1].entries) >= 1
Safe == outc # <<>> /\ outc[1].after = "reply" => outc[1].sends /\ outc[1].cmd \in Downloads
Emitted == outc # <<>> => Emit(outc[1])
=============================================================================
