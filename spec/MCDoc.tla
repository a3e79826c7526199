------------------------------- MODULE MCDoc -------------------------------
(***************************************************************************)
(* A bank's server writes a document token by token; the reader follows in *)
(* lock step.  The environment may damage the stream once (Faults): inject *)
(* a foreign element, drop, repeat, replace or swap tokens, or stop.       *)
(* At the end of each behaviour the token sequence, the verdict and the    *)
(* projection are emitted for replay against the real decoder.             *)
(***************************************************************************)
EXTENDS OfxWriter, OfxEmit
CONSTANTS Docs,      \* set of [id, seed, plan, m, style, ver]
          Faults,    \* set of fault kinds
          FaultOneIn \* one in so many positions is damaged, chosen per seed
VARIABLES vDoc, vTodo, vSent, vReader, vExp, vFault, vNote
vars == <<vDoc, vTodo, vSent, vReader, vExp, vFault, vNote>>
\* What tells states apart: the document, how far it was sent, and the damage (kind, place, choice).
View == <<vDoc.id, vDoc.seed, vDoc.style, Len(vSent), Len(vTodo), vFault, vNote>>

Sgml(ver) == ver < 200

\* ---- families of documents
M(kind, ta, ti, tj, dens, valid, ver) == [kind |-> kind, ta |-> ta, ti |-> ti, tj |-> tj, dens |-> dens, valid |-> valid, ver |-> ver]
RsRoots == {"SignonResponse"} \cup UNION {{RsSets[i].msgs[j].a : j \in 1..Len(RsSets[i].msgs)} : i \in 1..Len(RsSets)}
RsAggs == UNION {Reach[a] : a \in RsRoots}
Xml(ws) == [v |-> 203, omit |-> "none", ws |-> ws]
Sg(omit, ws) == [v |-> 102, omit |-> omit, ws |-> ws]
\* Every element of every aggregate, in each of the styles given (v: version).
Targets == {t \in RsAggs \X (1..60) \X (0..24) :
              /\ t[2] <= Len(Schema[t[1]])
              /\ t[3] < (IF Schema[t[1]][t[2]].k = "mix" THEN Len(Mix[Schema[t[1]][t[2]].a])
                         ELSE IF Schema[t[1]][t[2]].k \in Enums THEN Len(EnumNames[Schema[t[1]][t[2]].k]) ELSE 1)}
TargetDocs(styles, sd) ==
  {[id |-> ToString(t), seed |-> sd + 7 * t[2] + 131 * t[3] + Len(t[1]), plan |-> LeadPlan(t[1]), m |-> M("target", t[1], t[2], t[3], 0, FALSE, 203),
    style |-> st, ver |-> st.v] : t \in Targets, st \in styles}
\* Every leaf with all that can follow it in its aggregate.
RestDocs(styles, sd) ==
  {[id |-> "rest" \o ToString(t), seed |-> sd + 7 * t[2] + Len(t[1]), plan |-> LeadPlan(t[1]), m |-> M("rest", t[1], t[2], t[3], 0, FALSE, 203),
    style |-> st, ver |-> st.v] : t \in {t \in Targets : t[3] = 0 /\ Schema[t[1]][t[2]].k \notin {"agg", "mix"}}, st \in styles}
\* The same as valid documents of a version that allows everything.
ValidTargets(styles, sd) ==
  {[id |-> ToString(t), seed |-> sd + 7 * t[2] + 131 * t[3] + Len(t[1]), plan |-> LeadPlan(t[1]), m |-> M("target", t[1], t[2], t[3], 0, TRUE, st.v),
    style |-> st, ver |-> st.v] : t \in Targets, st \in styles}
RandDocs(lo, hi, dens, sets, styles, valid) ==
  {[id |-> "r" \o ToString(n), seed |-> n, plan |-> RandPlan(sets, Seed0(n)), m |-> M("rand", "", 0, 0, dens, valid, st.v),
    style |-> st, ver |-> st.v] : n \in lo..hi, st \in styles}
\* Several of everything on the way to an aggregate, the rest left to chance: entries of one list
\* that do and do not have the same optional parts.
NearDocs(aggs, lo, hi, dens, styles, valid) ==
  {[id |-> "near" \o ToString(<<a, n>>), seed |-> n + 31 * Len(a), plan |-> LeadPlan(a), m |-> M("near", a, 0, 0, dens, valid, st.v), style |-> st, ver |-> st.v]
     : a \in aggs, n \in lo..hi, st \in styles}
\* Lists of n entries: every list there is.
CrowdDocs(n, styles, sd) ==
  {[id |-> "crowd" \o ToString(t), seed |-> sd + 7 * t[2] + Len(t[1]), plan |-> LeadPlan(t[1]), m |-> M("crowd", t[1], t[2], 0, n, FALSE, 203), style |-> st, ver |-> st.v]
     : t \in {t \in Targets : t[3] = 0 /\ (Schema[t[1]][t[2]].k = "mix" \/ Schema[t[1]][t[2]].c = "*")}, st \in styles}
LongDocs(lo, hi, dens, sets, styles, valid) ==
  {[id |-> "long" \o ToString(n), seed |-> n, plan |-> RandPlan(sets, Seed0(n)), m |-> M("long", "", 0, 0, dens, valid, st.v), style |-> st, ver |-> st.v] : n \in lo..hi, st \in styles}
\* The messages of set i, each k times.
AllMsgs(i, k) == [j \in 1..(k * Len(RsSets[i].msgs)) |-> ((j - 1) % Len(RsSets[i].msgs)) + 1]
\* One document per message set, each message k times.
FullSets(n, kind, k, styles) ==
  {[id |-> kind \o ToString(i), seed |-> n + i, plan |-> <<<<i, AllMsgs(i, k)>>>>, m |-> M(kind, "", 0, 0, 0, FALSE, 203), style |-> st, ver |-> st.v]
     : i \in 1..Len(RsSets), st \in styles}
FullDocs(n, kind, styles) ==
  {[id |-> kind, seed |-> n, plan |-> FullPlan, m |-> M(kind, "", 0, 0, 0, FALSE, 203), style |-> st, ver |-> st.v] : st \in styles}
\* Every ordered pair of message sets, the first of them again at the end, with k messages of each kind.
PairDocs(k, styles) ==
  {[id |-> "pair" \o ToString(<<i, j>>), seed |-> 50 * i + j, plan |-> <<<<i, AllMsgs(i, k)>>, <<j, AllMsgs(j, k)>>, <<i, AllMsgs(i, 1)>>>>,
    m |-> M("min", "", 0, 0, 0, FALSE, 203), style |-> st, ver |-> st.v] : i \in 1..Len(RsSets), j \in 1..Len(RsSets), st \in styles}
\* One document per message set.
SetDocs(k, styles) ==
  {[id |-> "set" \o ToString(i), seed |-> 50 * i, plan |-> <<<<i, AllMsgs(i, k)>>>>,
    m |-> M("min", "", 0, 0, 0, FALSE, 203), style |-> st, ver |-> st.v] : i \in 1..Len(RsSets), st \in styles}
\* The author writes his document in a step of its own, so that many authors work side by side.
Init == /\ vDoc \in Docs /\ vTodo = <<>> /\ vExp = NoMap /\ vSent = <<>> /\ vNote = <<>>
        /\ vFault = "unwritten" /\ vReader = Start0(Sgml(vDoc.ver))
Author == /\ vFault = "unwritten" /\ vFault' = ""
          /\ LET g == GenDoc(vDoc.seed, vDoc.plan, vDoc.m) IN
             /\ vTodo' = Spell(g.ev, vDoc.style, vDoc.seed)
             /\ vExp' = g.proj
          /\ UNCHANGED <<vDoc, vSent, vNote, vReader>>

Feed(toks) == /\ vReader' = ReadAll(vReader, toks) /\ vSent' = vSent \o toks
Write == /\ vTodo # <<>> /\ vFault = ""
         /\ Feed(<<Head(vTodo)>>) /\ vTodo' = Tail(vTodo) /\ UNCHANGED <<vDoc, vExp, vFault, vNote>>
\* End tags are delivered together with what precedes them when nothing can be damaged any more.
Rush  == /\ vTodo # <<>> /\ (vFault # "" \/ Faults = {})
         /\ Feed(vTodo) /\ vTodo' = <<>> /\ UNCHANGED <<vDoc, vExp, vFault, vNote>>

\* ---- damage
Inject == [unkagg |-> <<"+ZZZAGG", "=\n", "+ZZZLEAF", "=12<", "-ZZZLEAF", "+MEMO", "=inner", "-MEMO", "-ZZZAGG">>,
           unkleaf |-> <<"+ZZZ.LEAF", "=some text", "-ZZZ.LEAF">>,
           unkempty |-> <<"+ZZZEMPTY", "-ZZZEMPTY">>,
           unknest |-> <<"+ZZZAGG", "+STATUS", "+CODE", "=9", "-CODE", "-STATUS", "-ZZZAGG">>,
           listed |-> <<"+SVRTID2", "=left open ">>,
           badsec |-> <<"+STOCKINFO", "-STOCKINFO">>,
           rqset |-> <<"+BANKMSGSRQV1", "-BANKMSGSRQV1">>,
           badset |-> <<"+ZZZMSGSRSV1", "-ZZZMSGSRSV1">>,
           emptyset |-> <<"+WIREXFERMSGSRSV1", "=\n", "-WIREXFERMSGSRSV1">>,
           stmt |-> <<"+STMTTRNRS", "-STMTTRNRS">>,
           rqmsg |-> <<"+STMTTRNRQ", "-STMTTRNRQ">>]
Clean(toks) == [i \in 1..Len(toks) |-> IF toks[i] = "=12<" THEN "=12" ELSE toks[i]]
AllMsgTags == UNION {{RsSets[i].msgs[j].t : j \in 1..Len(RsSets[i].msgs)} : i \in 1..Len(RsSets)}
         \cup UNION {{RqSets[i].msgs[j].t : j \in 1..Len(RqSets[i].msgs)} : i \in 1..Len(RqSets)}
         \cup {RsSets[i].set : i \in 1..Len(RsSets)} \cup {RqSets[i].set : i \in 1..Len(RqSets)}
         \cup {"SIGNONMSGSRSV1", "SIGNONMSGSRQV1", "SONRS", "SONRQ", "INTRATRNRS", "PMTTRNRS", "WIRETRNRS", "LOANSTMTTRNRS", "STMTRS", "STMTENDTRNRS"}
\* Names that are nearly right.
NearNames(T) == UNION {{ToLower(t), t \o "X", SubSeq(t, 1, Len(t) - 1), SubSeq(t, 2, Len(t)), t \o "2"} : t \in T}
AllMixTags == UNION {MixTags[x] : x \in DOMAIN Mix}
Rushed(t) == Ch(t[1], 1) # "="
TokHash == LET n == Len(vSent) IN ((vDoc.seed * 31 + n * 7) % 9973)
WholeDoc == {"nosign", "latesign", "twosign", "sonsign", "stmtsign", "emptysign"}
Damage(k) ==
  /\ vFault = "" /\ vTodo # <<>> /\ vReader.st = "run"
  /\ (k \in WholeDoc \/ (TokHash + (IF k \in {"drop", "badval"} THEN 0 ELSE Len(k))) % FaultOneIn = 0)
  /\ vFault' = k /\ UNCHANGED <<vDoc, vExp>>
  /\ LET h == Head(vTodo)  c == Ch(h, 1) IN
     CASE k \in DOMAIN Inject -> Feed(Clean(Inject[k])) /\ vTodo' = vTodo
       [] k = "drop"   -> c # "=" /\ vTodo' = Tail(vTodo) /\ UNCHANGED <<vReader, vSent>>
       [] k = "cut"    -> vTodo' = <<>> /\ UNCHANGED <<vReader, vSent>>
       [] k = "dup"    -> c = "-" /\ Feed(<<h, h>>) /\ vTodo' = Tail(vTodo)
       [] k = "rename" -> c = "+" /\ Feed(<<h \o "X">>) /\ vTodo' = Tail(vTodo)
       [] k = "renameboth" -> /\ c = "+" /\ Len(vTodo) >= 3
                              /\ \E j \in 2..Min(4, Len(vTodo)) : /\ vTodo[j] = "-" \o SubSeq(h, 2, Len(h))
                                   /\ vTodo' = <<h \o "Q">> \o SubSeq(vTodo, 2, j-1) \o <<vTodo[j] \o "Q">> \o SubSeq(vTodo, j+1, Len(vTodo))
                              /\ UNCHANGED <<vReader, vSent>>
       [] k = "badval" -> /\ c = "=" /\ TopF(vReader).k = "leaf"
                          /\ vTodo' = <<"=" \o (CASE TopF(vReader).kind = "int" -> "12x" [] TopF(vReader).kind = "date" -> "20061332"
                                        [] TopF(vReader).kind = "amt" -> "1.2.3" [] TopF(vReader).kind = "bool" -> "yes" [] TopF(vReader).kind = "cur" -> "U$D"
                                        [] TopF(vReader).kind \in {"str", "uid"} -> " kept &amp; read "
                                        [] OTHER -> "NOSUCHNAME")>> \o Tail(vTodo)
                          /\ UNCHANGED <<vReader, vSent>>
       [] k = "blank"  -> /\ c = "=" /\ TopF(vReader).k = "leaf" /\ vTodo' = <<"= \n">> \o Tail(vTodo) /\ UNCHANGED <<vReader, vSent>>
       [] k = "swap"   -> /\ Len(vTodo) >= 7 /\ c = "+" /\ Ch(vTodo[3], 1) = "-" /\ Ch(vTodo[4], 1) = "+" /\ Ch(vTodo[6], 1) = "-"
                          /\ vTodo' = SubSeq(vTodo, 4, 6) \o SubSeq(vTodo, 1, 3) \o SubSeq(vTodo, 7, Len(vTodo))
                          /\ UNCHANGED <<vReader, vSent>>
       [] k = "swapend" -> /\ Len(vTodo) >= 2 /\ c = "-" /\ Ch(vTodo[2], 1) = "-"
                           /\ vTodo' = <<vTodo[2], vTodo[1]>> \o SubSeq(vTodo, 3, Len(vTodo)) /\ UNCHANGED <<vReader, vSent>>
       \* a documented name the other uses of the Go type do not share
       [] k = "corporate" -> /\ c = "=" /\ TopF(vReader).kind = "InvAcctType" /\ vTodo' = <<"=CORPORATE">> \o Tail(vTodo) /\ UNCHANGED <<vReader, vSent>>
       \* every message and message set there is, of either side, at this place
       [] k = "anymsg" -> /\ TopF(vReader).k \in {"set", "ofx"} /\ Rushed(vTodo)
                          /\ \E t \in AllMsgTags \cup (IF vDoc.ver >= 200 THEN NearNames(IF TopF(vReader).k = "ofx" THEN SetTags ELSE {RsSets[i].msgs[j].t : i \in {SetIx[TopF(vReader).t]}, j \in 1..Len(RsSets[SetIx[TopF(vReader).t]].msgs)}) ELSE {}) : vTodo' = <<"+" \o t, "-" \o t>> \o vTodo
                          /\ UNCHANGED <<vReader, vSent>>
       \* every entry of every mixed list, and names nearly like those of this list
       [] k = "anymix" -> /\ TopF(vReader).k = "agg" /\ MixName[TopF(vReader).a] \notin {"", "MessageSetList"} /\ Rushed(vTodo)
                          /\ \E t \in AllMixTags \cup NearNames(MixTags[MixName[TopF(vReader).a]]) : vTodo' = <<"+" \o t, "-" \o t>> \o vTodo
                          /\ UNCHANGED <<vReader, vSent>>
       \* the signon message set: missing, late, twice, with a second signon, with a bank message, empty
       [] k \in {"nosign", "latesign", "twosign", "sonsign", "stmtsign", "emptysign"} ->
            /\ h = "+" \o SonSet
            /\ LET e == CHOOSE i \in 1..Len(vTodo) : vTodo[i] = "-" \o SonSet
                   son == SubSeq(vTodo, 1, e)
                   rest == SubSeq(vTodo, e + 1, Len(vTodo))
                   o == CHOOSE i \in 1..Len(rest) : rest[i] = "-OFX"
                   body == SubSeq(son, 2, Len(son) - 1)
               IN vTodo' = CASE k = "nosign"   -> rest
                            [] k = "latesign" -> SubSeq(rest, 1, o - 1) \o son \o SubSeq(rest, o, Len(rest))
                            [] k = "twosign"  -> son \o son \o rest
                            [] k = "sonsign"  -> <<son[1]>> \o body \o body \o <<son[Len(son)]>> \o rest
                            [] k = "stmtsign" -> <<son[1]>> \o body \o <<"+STMTTRNRS", "-STMTTRNRS">> \o <<son[Len(son)]>> \o rest
                            [] OTHER          -> <<son[1], son[Len(son)]>> \o rest
            /\ UNCHANGED <<vReader, vSent>>
       [] OTHER -> FALSE
  /\ vNote' = <<Len(vSent), IF vTodo' = <<>> THEN "" ELSE vTodo'[1], Len(vTodo')>>
Next == Author \/ (Faults # {} /\ Write) \/ Rush \/ \E k \in Faults : Damage(k)
Spec == Init /\ [][Next]_vars

End == vTodo = <<>> /\ vFault # "unwritten"
Verdict == AtEof(vReader)
\* ---- properties of the specification itself
Faithful == (End /\ vFault = "") => vReader.st = "ok" /\ vReader.proj = vExp
NoEarlyEnd == (vFault = "" /\ \E i \in 1..Len(vTodo) : Ch(vTodo[i], 1) # "=") => vReader.st # "ok"
CutRejected == (End /\ vFault = "cut") => Verdict.st \in {"err"}
\* A foreign element inside an aggregate changes nothing, in a list of alternatives or at top level it is fatal.
Foreign == (End /\ vFault \in {"unkagg", "unkleaf", "unkempty", "unknest", "listed"} /\ vReader.st = "ok") => vReader.proj = vExp
StrayFatal == (End /\ vFault \in {"rqset", "badset", "rqmsg"}) => vReader.st \in {"err", "free", "ok"} /\ (vReader.st = "ok" => vReader.proj = vExp)
SignonFirst == (End /\ vFault \in WholeDoc) => vReader.st = "err"
StackOk == vReader.st = "run" => Len(vReader.stk) >= 1 /\ vReader.stk[1].k = "top"
NestingOk == (End /\ vFault \in {"swapend", "rename"} /\ ~vReader.sgml) => vReader.st # "ok"
Emitted == (End /\ (vReader.st # "run" \/ vFault = "cut" \/ TRUE)) =>
   Emit([op |-> "doc", id |-> vDoc.id, ver |-> vDoc.ver, toks |-> vSent, st |-> Verdict.st,
         proj |-> IF Verdict.st = "ok" THEN Verdict.proj ELSE NoMap, fault |-> vFault])
=============================================================================
