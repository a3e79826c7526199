------------------------------- MODULE MCDate -------------------------------
(***************************************************************************)
(* Exhaustive date model.  A state is an abstract instant plus a spelling; *)
(* actions write it in every permitted precision and zone form and reread  *)
(* it.  Checked on the model: rereading yields the same instant (Faithful) *)
(* for every whole-minute offset.  Emitted: every spelling, plus its       *)
(* near-miss mutations, as decoder tests; every civil time x zone, as      *)
(* encoder tests.                                                          *)
(***************************************************************************)
EXTENDS OfxLeaf, OfxEmit
CONSTANTS Years, Days, Times, Offsets, Names, Layers, Precs, Styles
\* Named values for the configurations (a TLC configuration file cannot write tuples).
DaysEdge == {<<1,1>>, <<1,31>>, <<2,28>>, <<2,29>>, <<2,30>>, <<4,30>>, <<4,31>>, <<12,31>>, <<0,1>>, <<13,1>>, <<6,0>>, <<7,32>>}
DaysFew  == {<<2,28>>, <<3,1>>, <<12,31>>}
DaysOne  == {<<1,1>>}
DaysAll  == {<<m, d>> : m \in 1..12, d \in 1..31}
TimesEdge == {<<0,0,0,0>>, <<23,59,59,999>>, <<12,30,45,123>>, <<24,0,0,0>>, <<10,60,0,0>>, <<10,0,61,5>>, <<7,8,9,10>>}
TimesFew  == {<<0,0,0,0>>, <<23,59,59,999>>, <<9,5,7,1>>}
TimesOne  == {<<12,30,45,50>>}
VARIABLES vPhase, vChoice, vText, vExp

\* <<month, day>> pairs are given per year; impossible ones are kept: they must be rejected.
DateText(y, md) == Pad(y, 4) \o Pad(md[1], 2) \o Pad(md[2], 2)
TimeText(t, prec) ==        \* t = <<h, mi, s, ms>>
  CASE prec = 8  -> ""
    [] prec = 10 -> Pad(t[1],2)
    [] prec = 12 -> Pad(t[1],2) \o Pad(t[2],2)
    [] prec = 14 -> Pad(t[1],2) \o Pad(t[2],2) \o Pad(t[3],2)
    [] prec = 18 -> Pad(t[1],2) \o Pad(t[2],2) \o Pad(t[3],2) \o "." \o Pad(t[4],3)
Trunc(t, prec) == CASE prec = 8 -> <<0,0,0,0>> [] prec = 10 -> <<t[1],0,0,0>> [] prec = 12 -> <<t[1],t[2],0,0>>
                    [] prec = 14 -> <<t[1],t[2],t[3],0>> [] prec = 18 -> t

\* Canonical zone text of an offset in minutes: hundredths of an hour, truncated (so at most 0.6 min low).
AbsI(n) == IF n < 0 THEN -n ELSE n
ZoneNum(off, style) ==
  LET a == AbsI(off)  h == a \div 60  m == a % 60  hh == (m * 100) \div 60
      sign == IF off < 0 THEN "-" ELSE IF style = "plus" THEN "+" ELSE ""
  IN sign \o (IF style = "pad" THEN Pad(h, 2) ELSE ToString(h)) \o
     (IF m = 0 /\ style # "frac" THEN "" ELSE "." \o Pad(hh, 2))
ZoneText(off, style, name) == "[" \o ZoneNum(off, style) \o (IF name = "" THEN "" ELSE ":" \o name) \o "]"

PossibleDay(y, md) == md[1] \in 1..12 /\ md[2] \in 1..DaysIn(y, md[1])

Init ==
  /\ vPhase = "abstract" /\ vText = "" /\ vExp = Free
  /\ vChoice \in [y : Years, md : Days, t : Times, off : Offsets]

WriteCase ==   \* the library writes this civil time in this zone
  /\ "write" \in Layers
  /\ vPhase = "abstract" /\ PossibleDay(vChoice.y, vChoice.md) /\ vChoice.t[1] < 24 /\ vChoice.t[2] < 60 /\ vChoice.t[3] < 60
  /\ \E nm \in Names :
       /\ vPhase' = "write" /\ UNCHANGED vChoice
       /\ vText' = nm
       /\ vExp' = Ok(CanonDate(Instant(vChoice.y, vChoice.md[1], vChoice.md[2], vChoice.t[1], vChoice.t[2], vChoice.t[3], vChoice.t[4], vChoice.off)))

ReadCase ==    \* the library reads this spelling
  /\ "read" \in Layers
  /\ vPhase = "abstract"
  /\ \E prec \in Precs, z \in Styles, nm \in {n \in Names : AllIn(n, Upper)} :
       /\ (z = "none") => (vChoice.off = 0 /\ nm = "")
       /\ vPhase' = "read" /\ UNCHANGED vChoice
       /\ vText' = DateText(vChoice.y, vChoice.md) \o TimeText(vChoice.t, prec) \o (IF z = "none" THEN "" ELSE ZoneText(vChoice.off, z, nm))
       /\ LET tt == Trunc(vChoice.t, prec) IN
          vExp' = IF PossibleDay(vChoice.y, vChoice.md) /\ tt[1] < 24 /\ tt[2] < 60 /\ tt[3] < 60
                 THEN Ok(CanonDate(Instant(vChoice.y, vChoice.md[1], vChoice.md[2], tt[1], tt[2], tt[3], tt[4], vChoice.off)))
                 ELSE Bad

Mutate ==      \* near misses of a spelling
  /\ "mutate" \in Layers
  /\ vPhase = "read" /\ vExp.st = "ok"
  /\ \E i \in 1..Len(vText), m \in {"drop", "dup", "x", "-", " ", "0"} :
       /\ vText' = CASE m = "drop" -> Before(vText, i) \o After(vText, i)
                    [] m = "dup"  -> SubSeq(vText, 1, i) \o SubSeq(vText, i, Len(vText))
                    [] OTHER      -> Before(vText, i) \o m \o After(vText, i)
       /\ vExp' = ParseDate(vText')
       /\ vPhase' = "mutant" /\ UNCHANGED vChoice
Blanks ==      \* white space around a spelling changes nothing
  /\ "read" \in Layers
  /\ vPhase = "read"
  /\ \E p \in {<<" ", "">>, <<"\n\t ", "\r\n">>} :
       /\ vText' = p[1] \o vText \o p[2] /\ vExp' = vExp /\ vPhase' = "mutant" /\ UNCHANGED vChoice

Next == WriteCase \/ ReadCase \/ Mutate \/ Blanks
vars == <<vPhase, vChoice, vText, vExp>>
Spec == Init /\ [][Next]_vars

\* The grammar agrees with the construction: independent cross-check of ParseDate.
Faithful == vPhase = "read" => ParseDate(vText) = vExp
\* Writing in hundredths and rounding to the nearest minute loses nothing.
OffsetExact == \A h \in {0, 3, 11}, m \in 0..59 : HundToMin((m * 100) \div 60) = m

Emitted ==
  CASE vPhase = "write" -> Emit([op |-> "datewrite", y |-> vChoice.y, mo |-> vChoice.md[1], d |-> vChoice.md[2], h |-> vChoice.t[1],
                                mi |-> vChoice.t[2], s |-> vChoice.t[3], ms |-> vChoice.t[4], off |-> vChoice.off, name |-> vText, v |-> vExp.v])
    [] vPhase \in {"read", "mutant"} -> Emit([op |-> "decode", kind |-> "date", text |-> vText, st |-> vExp.st, v |-> vExp.v])
    [] OTHER -> TRUE
=============================================================================
