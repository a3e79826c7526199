----------------------------- MODULE OfxWriter -----------------------------
(***************************************************************************)
(* Documents as their author means them: a pseudo-random or targeted       *)
(* abstract document is produced together with its projection (what every  *)
(* reader must obtain), and then spelled in one of the styles OFX allows.  *)
(*                                                                         *)
(* A mode says which optional parts appear:                                *)
(*   [kind |-> "min"]                 only what is always written          *)
(*   [kind |-> "all"]                 everything, each alternative once    *)
(*   [kind |-> "target", ta, ti]      element ti of aggregate ta, and the  *)
(*                                    path that leads to it                *)
(*   [kind |-> "rest", ta, ti]        the same with every later element of *)
(*                                    that aggregate                       *)
(*   [kind |-> "rand", dens]          each optional part with dens percent *)
(*   [kind |-> "near", ta, dens]      several of everything on the way to  *)
(*                                    aggregate ta, the rest as "rand"     *)
(*   [kind |-> "crowd", ta, ti, dens] the list ti of aggregate ta has dens *)
(*                                    entries, the rest as "min"           *)
(*   [kind |-> "long", dens]          as "rand", with long texts           *)
(* seed: start of the pseudo-random sequence; valid: keep to combinations  *)
(* OFX allows in version ver.                                              *)
(***************************************************************************)
EXTENDS OfxReader, OfxStatus
SE == INSTANCE SequencesExt

\* ---- pseudo-random numbers: a multiplicative generator modulo a prime
Prime == 32749
Rnd(x) == (x * 20023) % Prime
Seed0(n) == LET y == ((((n % 30000) * 977) + 131) % (Prime - 1)) + 1 IN Rnd(Rnd(Rnd(y)))

\* ---- which aggregates can be reached from an aggregate
Kids(a) == {Schema[a][i].a : i \in {j \in 1..Len(Schema[a]) : Schema[a][j].k = "agg"}}
           \cup (IF MixName[a] = "" THEN {} ELSE {Mix[MixName[a]][i].a : i \in 1..Len(Mix[MixName[a]])})
RECURSIVE ReachOf(_)
ReachOf(a) == {a} \cup UNION {ReachOf(b) : b \in Kids(a)}
Reach == [a \in DOMAIN Schema |-> ReachOf(a)]
MixReach(j, m) == Reach[Mix[m][j].a]
ElemReach(a, i) == LET e == Schema[a][i] IN
   CASE e.k = "agg" -> Reach[e.a]
     [] e.k = "mix" -> UNION {MixReach(j, e.a) : j \in 1..Len(Mix[e.a])}
     [] OTHER -> {}
LeadIx(a, ta) == LET P == {i \in 1..Len(Schema[a]) : ta \in ElemReach(a, i)}
                 IN IF a = ta \/ P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j
MixLead(m, ta) == LET P == {j \in 1..Len(Mix[m]) : ta \in MixReach(j, m)}
                  IN IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j

\* ---- leaf texts.  n counts the leaves of the document, so that no two texts are alike.
StrForms == <<"s%", "s%", "S % x", "a&amp;b%", "&lt;%&gt;", "1%", "%", "q&quot;%&apos;", "u~e~%", "%.", "p/%-_:#", "a  b%">>
RECURSIVE Fill(_, _)
Fill(form, n) == IF form = "" THEN ""
                 ELSE (IF Ch(form, 1) = "%" THEN ToString(n) ELSE Ch(form, 1)) \o Fill(SubSeq(form, 2, Len(form)), n)
Langs == <<"ENG", "FRA", "DEU", "SPA">>
AppIds == <<"OFXGO", "QWIN", "Q", "~e~", "A&amp;B">>
AppVers == <<"0001", "2400", "1", "&lt;2&gt;">>
Ctry  == <<"USA", "CAN", "MEX">>
CurSeq == <<"USD", "EUR", "JPY", "CAD", "GBP", "CHF", "AUD">>
DateForms == <<"YYYYMMDD", "YYYYMMDDHHMM", "YYYYMMDDHHMMSS", "YYYYMMDDHHMMSS.XXX[-5:EST]", "YYYYMMDDHHMMSS[+5.50:IST]",
               "YYYYMMDDHHMMSS.XXX", "YYYYMMDDHH", "YYYYMMDDHHMMSS.XXX[0:GMT]", "YYYYMMDDHHMM[-3.50:NST]", "YYYYMMDD[-8]">>
DateText(n, j) ==
  LET f == DateForms[(j % Len(DateForms)) + 1]
      base == Pad(1990 + ((n * 17) % 37), 4) \o Pad(1 + (n % 12), 2) \o Pad(1 + (n % 28), 2)
      rest == Pad(n % 24, 2) \o Pad((n * 7) % 60, 2) \o Pad((n * 11) % 60, 2)
      p  == FindAny(f, {".", "["})
      len == (IF p = 0 THEN Len(f) ELSE p - 1) - 8
      tail == IF p = 0 THEN "" ELSE IF Ch(f, p) = "." THEN "." \o Pad((n * 13) % 1000, 3) \o SubSeq(f, p + 4, Len(f)) ELSE SubSeq(f, p, Len(f))
  IN base \o SubSeq(rest, 1, len) \o tail
AmtForms == <<"%", "-%.25", "+%.5", "%,75", "0.0%", "-%", "1000000000000%.123456789">>
IntForms == <<"%", "-%", "+%", "0%", "900000000000000%">>
LeafText(a, t, k, n, x, code) ==
  CASE k = "str" -> (CASE t = "LANGUAGE" -> Langs[(x % Len(Langs)) + 1]
                       [] t = "COUNTRY" -> Ctry[(x % Len(Ctry)) + 1]
                       [] t = "SEVERITY" -> StatusSeverity(code)
                       [] t = "APPID" -> AppIds[(x % Len(AppIds)) + 1]
                       [] t = "APPVER" -> AppVers[(x % Len(AppVers)) + 1]
                       [] t = "CLIENTROUTING" -> "NONE"
                       [] OTHER -> Fill(StrForms[(x % Len(StrForms)) + 1], n))
    [] k = "uid" -> "u" \o ToString(n)
    [] k = "int" -> IF t = "CODE" THEN ToString(code) ELSE Fill(IntForms[(x % Len(IntForms)) + 1], n)
    [] k = "amt" -> Fill(AmtForms[(x % Len(AmtForms)) + 1], n)
    [] k = "date" -> DateText(n, x)
    [] k = "bool" -> IF x % 3 = 0 THEN "N" ELSE "Y"
    [] k = "cur" -> CurSeq[(x % Len(CurSeq)) + 1]
    [] OTHER -> NamesOf(k)[(x % Len(NamesOf(k))) + 1]

\* Texts at and beyond the limits of validity, now and then.
OddText(e, x, w) ==
  CASE e.t = "TRNUID" -> <<w, w, w, "", Rep("u", 36), Rep("u", 37), Rep("u", 31) \o "~e~", Rep("u", 32) \o "~e~">>[(x % 8) + 1]
    [] e.t = "LANGUAGE" -> <<w, w, w, "", "EN", "ENGL", "~e~">>[(x % 7) + 1]
    [] e.t = "SEVERITY" -> <<w, w, w, w, w, "ERROR", "INFO", "error">>[(x % 8) + 1]
    [] e.t = "CODE" -> <<w, w, w, w, w, w, "4242", "13">>[(x % 8) + 1]
    [] e.t = "TRNTYPE" -> <<w, w, w, w, w, w, "HOLD">>[(x % 7) + 1]
    [] e.t \in {"FITID", "BANKID", "ACCTID"} -> <<w, w, w, w, w, w, w, w, w, "">>[(x % 10) + 1]
    [] OTHER -> w

\* Stands for a text of many thousand characters, which is as opaque to reader and writer as any other:
\* the harness puts it in place of the mark on both sides.
LongMark == "~long~"
Bounded == {"LANGUAGE", "COUNTRY", "SEVERITY", "BANKID", "BRANCHID", "ACCTID", "ACCTKEY", "BROKERID", "CLIENTROUTING", "USERID", "USERPASS", "USERKEY", "APPID", "APPVER", "UNIQUEIDTYPE", "UNIQUEID"}

\* ---- abstract documents: a sequence of <<"S", tag>>, <<"E", tag>>, <<"L", tag, text>>
New(seed, m) == [m |-> m, x |-> Seed0(seed), n |-> 1, ev |-> <<>>, proj |-> NoMap, sib |-> {}, code |-> 0]
Draw(s)   == [s EXCEPT !.x = Rnd(@)]
Put(s, p, v) == [s EXCEPT !.proj = (p :> v) @@ @]
Ev(s, e)  == [s EXCEPT !.ev = Append(@, e)]

WriteLeaf(s, a, e, p) ==
  LET s1 == Draw(s)
      code == IF e.t = "CODE" THEN StatusCodes[(s1.x % Len(StatusCodes)) + 1] ELSE s1.code
      w0 == LeafText(a, e.t, e.k, s1.n, s1.x \div 7, code)
      w  == IF s.m.valid /\ a = "Transaction" /\ w0 = "HOLD" THEN "OTHER"
            ELSE IF s.m.kind = "odd" THEN OddText(e, s1.x \div 11, w0)
            ELSE IF s.m.kind = "long" /\ e.k = "str" /\ e.t \notin Bounded THEN w0 \o LongMark
            ELSE w0
      v  == Parse(e.k, Unescape(w)).v
      s2 == [s1 EXCEPT !.n = @ + 1, !.code = code, !.sib = @ \cup {e.t}, !.ev = Append(@, <<"L", e.t, w>>)]
  IN IF v = ZeroOf(e.k) /\ ~e.p THEN s2 ELSE Put(s2, p, v)

\* A valid message has its body.
NeedsBody(m, e, depth) == m.valid /\ e.k = "agg" /\ e.f = "" /\ depth = 1 /\ e.t # "FI"
Aims(m) == m.kind \in {"target", "rest", "crowd"}
\* "near": what leads to aggregate ta is there, several times where that is possible; all else is left to chance.
Near(m) == m.kind = "near"
\* How often element i of aggregate a appears.
Times(a, i, s, m, depth) ==
  LET e == Schema[a][i]
      lead == (Aims(m) \/ Near(m)) /\ i = LeadIx(a, m.ta)
      hit  == Aims(m) /\ a = m.ta /\ (i = m.ti \/ (m.kind = "rest" /\ i > m.ti))
      dice == s.x % 100 < m.dens
      opt  == CASE m.kind = "min" -> IF NeedsBody(m, e, depth) THEN 1 ELSE 0
                [] m.kind = "all" -> 1
                [] Aims(m) -> IF lead \/ hit \/ NeedsBody(m, e, depth) THEN 1 ELSE 0
                [] OTHER -> IF dice \/ lead \/ NeedsBody(m, e, depth) THEN 1 ELSE 0
      many == CASE m.kind = "all" -> 2
                [] m.kind = "crowd" -> IF hit THEN m.dens ELSE IF lead THEN 1 ELSE 0
                [] Aims(m) -> IF hit THEN (IF m.kind = "rest" THEN 1 ELSE 3) ELSE IF lead THEN 2 ELSE 0
                [] m.kind = "min" -> 0
                [] OTHER -> IF lead THEN 2 + ((s.x \div 100) % 3) ELSE IF dice THEN (s.x \div 100) % 4 ELSE 0
      n == IF e.c = "1" THEN 1 ELSE IF e.c = "*" THEN many ELSE opt
  IN IF m.valid /\ e.c # "1"
     THEN CASE e.t = "NAME" /\ a = "PendingTransaction" -> 1
            [] e.t = "LEDGERBAL" -> 1
            [] e.t = "CORRECTACTION" -> IF "CORRECTFITID" \in s.sib THEN 1 ELSE 0
            [] e.t = "PAYEE" /\ "NAME" \in s.sib -> 0
            [] e.t = "CCACCTTO" /\ "BANKACCTTO" \in s.sib -> 0
            [] e.t = "ORIGCURRENCY" /\ "CURRENCY" \in s.sib -> 0
            [] e.t = "IMAGEDATA" -> IF m.ver < 220 THEN 0 ELSE Min(n, 2)
            [] e.t = "USERPASS" -> IF n = 1 \/ s.x % 3 > 0 THEN 1 ELSE 0
            [] e.t = "USERKEY" /\ a = "SignonRequest" -> IF "USERPASS" \in s.sib THEN 0 ELSE 1
            [] e.t = "INCLUDEPENDING" /\ m.ver < 220 -> 0
            [] e.t = "INCTRANIMG" /\ m.ver < 210 -> 0
            [] e.t = "BANKTRANLISTP" /\ m.ver < 220 -> 0
            [] HasSuffix(a, "AVAILBAL") -> 1
            [] OTHER -> n
     ELSE n

RECURSIVE GenElems(_, _, _, _, _, _), GenCopies(_, _, _, _, _, _, _, _), GenMix(_, _, _, _, _, _)
GenAgg(a, t, pre, s, m, depth) ==
  LET s1 == Ev([s EXCEPT !.sib = {}], <<"S", t>>)
      s2 == GenElems(a, 1, pre, s1, m, depth)
  IN [Ev(s2, <<"E", t>>) EXCEPT !.sib = s.sib \cup {t}]
GenElems(a, i, pre, s, m, depth) ==
  IF i > Len(Schema[a]) THEN s
  ELSE LET e == Schema[a][i]  s1 == Draw(s) IN
       IF e.k = "mix"
       THEN LET nalt == Len(Mix[e.a])
                js == CASE m.kind = "min" -> <<>>
                        [] m.kind = "all" -> [j \in 1..nalt |-> ((j + 2) % nalt) + 1]
                        [] m.kind = "crowd" /\ a = m.ta -> [j \in 1..(IF i = m.ti THEN m.dens ELSE 0) |-> ((j * 5 + s1.x) % nalt) + 1]
                        [] Aims(m) /\ a = m.ta -> <<(m.tj % nalt) + 1, (s1.x % nalt) + 1, (m.tj % nalt) + 1>>
                        [] Aims(m) -> LET l == MixLead(e.a, m.ta) IN IF l = 0 THEN <<>> ELSE <<l, (s1.x % nalt) + 1, l>>
                        [] Near(m) /\ (a = m.ta \/ MixLead(e.a, m.ta) # 0) ->
                             LET l == MixLead(e.a, m.ta) IN
                             [j \in 1..(3 + (s1.x % 3)) |-> IF l # 0 /\ j % 2 = 1 THEN l ELSE ((s1.x \div 13 + j * (1 + (s1.x % 7))) % nalt) + 1]
                        [] OTHER -> [j \in 1..(s1.x % (IF s1.x % 100 < m.dens THEN 5 ELSE 2)) |-> ((s1.x \div 13 + j * (1 + (s1.x % 7))) % nalt) + 1]
            IN GenElems(a, i + 1, pre, GenMix(e.a, js, pre, s1, m, depth), m, depth)
       ELSE GenElems(a, i + 1, pre, GenCopies(a, e, pre, 0, Times(a, i, s1, m, depth), s1, m, depth), m, depth)
GenCopies(a, e, pre, k, n, s, m, depth) ==
  IF k >= n THEN s
  ELSE LET lp == J(pre, e.f)
           p  == IF e.c = "*" THEN lp \o Idx(k) ELSE lp
           s1 == IF e.c = "*" THEN Put(s, lp \o "#", ToString(k + 1)) ELSE s
           s2 == IF e.k # "agg" THEN WriteLeaf(s1, a, e, p)
                 ELSE LET s3 == IF e.p THEN Put(s1, p \o "!", "1") ELSE s1
                          s4 == IF e.a = "MessageSet" THEN Put(s3, J(p, "Name"), e.t) ELSE s3
                      IN GenAgg(e.a, e.t, p, s4, m, depth + 1)
       IN GenCopies(a, e, pre, k + 1, n, s2, m, depth)
GenMix(mx, js, pre, s, m, depth) ==
  IF js = <<>> THEN s
  ELSE LET e  == Mix[mx][Head(js)]
           lp == J(pre, e.f)
           key == lp \o "#"
           n  == IF key \in DOMAIN s.proj THEN NatOf(s.proj[key]) ELSE 0
           p  == lp \o Idx(n)
           s1 == Put(s, key, ToString(n + 1))
           s2 == IF e.ty = "" THEN s1 ELSE Put(s1, p \o "@", e.ty \o "/" \o e.t)
       IN GenMix(mx, Tail(js), pre, GenAgg(e.a, e.t, p, s2, m, depth + 1), m, depth)

\* A message set: sl = index into RsSets, ks = which of its messages, in order.
RECURSIVE GenMsgs(_, _, _, _)
GenMsgs(st, ks, s, m) ==
  IF ks = <<>> THEN s
  ELSE LET msg == st.msgs[Head(ks)]
           key == st.slot \o "#"
           n   == IF key \in DOMAIN s.proj THEN NatOf(s.proj[key]) ELSE 0
           p   == st.slot \o Idx(n)
           s1  == Put(Put(s, key, ToString(n + 1)), p \o "@", MsgType(msg.a, msg.t, st.set))
       IN GenMsgs(st, Tail(ks), GenAgg(msg.a, msg.t, p, s1, m, 0 + (IF msg.a = "SecurityList" THEN 2 ELSE 1)), m)
GenSet(st, ks, s, m) == Ev(GenMsgs(st, ks, Ev(s, <<"S", st.set>>), m), <<"E", st.set>>)
RECURSIVE GenSets(_, _, _)
GenSets(plan, s, m) == IF plan = <<>> THEN s ELSE GenSets(Tail(plan), GenSet(RsSets[plan[1][1]], plan[1][2], s, m), m)

\* The whole document.  plan: sequence of <<set index, <<message indices>>>>.
SonMode(m) == IF Aims(m) /\ m.ta \notin Reach["SignonResponse"] THEN [m EXCEPT !.kind = "min"] ELSE m
GenDoc(seed, plan, m) ==
  LET s1 == Ev(Ev(New(seed, m), <<"S", "OFX">>), <<"S", SonSet>>)
      s2 == GenAgg("SignonResponse", "SONRS", "Signon", s1, SonMode(m), 1)
      s3 == Ev(s2, <<"E", SonSet>>)
  IN Ev(GenSets(plan, s3, m), <<"E", "OFX">>)

\* A request: its message sets come in the order OFX prescribes.
GenReq(seed, plan, m) ==
  LET s1 == Ev(Ev(New(seed, m), <<"S", "OFX">>), <<"S", RqSonSet>>)
      s2 == GenAgg("SignonRequest", "SONRQ", "Signon", s1, IF Aims(m) /\ m.ta \notin Reach["SignonRequest"] THEN [m EXCEPT !.kind = "min"] ELSE m, 1)
      s3 == Ev(s2, <<"E", RqSonSet>>)
      RECURSIVE Sets(_, _)
      Sets(i, s) == IF i > Len(RqSets) THEN s
                    ELSE LET ks == Flat([j \in 1..Len(plan) |-> IF plan[j][1] = i THEN plan[j][2] ELSE <<>>])
                         IN Sets(i + 1, IF ks = <<>> THEN s ELSE GenSet(RqSets[i], ks, s, m))
  IN Ev(Sets(1, s3), <<"E", "OFX">>)
\* One message alone: the fields of a message of kind a, given relative to it.
GenMsg(a, t, seed, m) == GenAgg(a, t, "", New(seed, m), m, 1).proj

\* The plan that leads to an aggregate (empty: it is the signon).
LeadPlan(ta) ==
  LET P == {<<i, j>> \in (1..Len(RsSets)) \X (1..2) : j <= Len(RsSets[i].msgs) /\ ta \in Reach[RsSets[i].msgs[j].a]}
  IN IF P = {} THEN <<>>
     ELSE LET p == CHOOSE p \in P : \A q \in P : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
          IN <<<<p[1], <<p[2]>>>>>>
\* A pseudo-random plan: up to k sets in any order, possibly empty or repeated.
RECURSIVE RandPlan(_, _)
RandPlan(k, x) ==
  IF k = 0 THEN <<>>
  ELSE LET y == Rnd(x)  z == Rnd(y)
           i == (y % Len(RsSets)) + 1
           nm == Len(RsSets[i].msgs)
           ks == IF nm = 0 THEN <<>> ELSE [j \in 1..((z \div 5) % 4) |-> ((z \div 20 + j * (z % 3)) % nm) + 1]
       IN <<<<i, ks>>>> \o RandPlan(k - 1, z)
\* One message of every kind there is.
FullPlan == LET F(i) == <<i, [j \in 1..Len(RsSets[i].msgs) |-> j]>> IN [i \in 1..Len(RsSets) |-> F(((i * 5) % Len(RsSets)) + 1)]

\* ---- spelling.  omit: "none" every element closed, "all" no leaf closed, "mix" some; ws: white space habit 0..3
WsSeq == <<"\n", "\r\n", "  ", "\n    ", "\t", "\r\n\r\n\t ">>
Gap(ws, x) == IF ws = 0 THEN "" ELSE IF ws = 1 THEN "\n" ELSE IF ws = 2 THEN "\r\n  " ELSE IF x % 3 = 0 THEN "" ELSE WsSeq[(x % Len(WsSeq)) + 1]
TextTok(t) == IF t = "" THEN <<>> ELSE <<"=" \o t>>
Spell(ev, style, seed) ==
  LET One(acc, e) ==
        LET x == Rnd(acc.x)  y == Rnd(x)
            closed == style.omit = "none" \/ (style.omit = "mix" /\ x % 2 = 0)
            gap == Gap(style.ws, y)
            pad == IF style.ws = 3 /\ x % 3 = 0 THEN Gap(3, y \div 3) ELSE ""
        IN IF e[1] = "L"
           THEN [x |-> y, toks |-> acc.toks \o <<"+" \o e[2]>>
                    \o (IF closed THEN TextTok(pad \o e[3] \o pad) \o <<"-" \o e[2]>> \o TextTok(gap)
                        ELSE TextTok(pad \o e[3] \o gap))]
           ELSE [x |-> y, toks |-> acc.toks \o <<(IF e[1] = "S" THEN "+" ELSE "-") \o e[2]>> \o TextTok(gap)]
  IN SE!FoldLeft(One, [x |-> Seed0(seed), toks |-> <<>>], ev).toks

ReadAll(r, toks) == SE!FoldLeft(LAMBDA acc, t : Step(acc, t), r, toks)
=============================================================================
