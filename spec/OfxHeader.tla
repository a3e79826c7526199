----------------------------- MODULE OfxHeader -----------------------------
(***************************************************************************)
(* What precedes the OFX element.  A 1.x document begins with nine         *)
(* KEY:VALUE fields in a fixed order, a 2.x document with an XML           *)
(* declaration and an OFX processing instruction.  ReadHead tells of a     *)
(* header text (all that comes before <OFX>) whether it is accepted, which *)
(* syntax the rest of the document has, and the version.  "free" is left   *)
(* to the implementation.                                                  *)
(***************************************************************************)
EXTENDS OfxText

SgmlVersions == {"102", "103", "151", "160"}
XmlVersions  == {"200", "201", "202", "203", "210", "211", "220"}
SgmlKeys == <<"OFXHEADER", "DATA", "VERSION", "SECURITY", "ENCODING", "CHARSET", "COMPRESSION", "OLDFILEUID", "NEWFILEUID">>
WordCh == Upper \cup Lower \cup Digits \cup {"_"}
\* Characters a field's value may consist of.
SgmlCls == <<Digits, Upper, Digits, WordCh, Upper \cup Digits \cup {"-"}, WordCh \cup {"-"}, Upper, WordCh \cup {"-"}, WordCh \cup {"-"}>>
SgmlValueOk(i, v) ==
  CASE i = 1 -> v = "100"
    [] i = 2 -> v = "OFXSGML"
    [] i = 3 -> v \in SgmlVersions
    [] i = 4 -> v \in {"NONE", "TYPE1"}
    [] i = 7 -> v = "NONE"
    [] OTHER -> TRUE

Verdict_(st, sgml, ver) == [st |-> st, sgml |-> sgml, ver |-> ver]
Refuse == Verdict_("err", FALSE, "")
Loose  == Verdict_("free", FALSE, "")

\* ---- 1.x
RECURSIVE SkipWs(_, _), RunEnd(_, _, _)
SkipWs(t, p) == IF p <= Len(t) /\ Ch(t, p) \in WS THEN SkipWs(t, p + 1) ELSE p
RunEnd(t, p, C) == IF p <= Len(t) /\ Ch(t, p) \in C THEN RunEnd(t, p + 1, C) ELSE p     \* first place outside
StartsAt(t, p, w) == p + Len(w) - 1 <= Len(t) /\ SubSeq(t, p, p + Len(w) - 1) = w
\* The value at p ends as late as the next field (or the end) allows.
RECURSIVE EndOfValue(_, _, _, _)
EndOfValue(t, p, q, next) ==      \* candidates q, q-1, ..., p+1: one past the value
  IF q <= p THEN 0
  ELSE LET r == SkipWs(t, q) IN
       IF (next = "" /\ r > Len(t)) \/ (next # "" /\ StartsAt(t, r, next \o ":")) THEN q
       ELSE EndOfValue(t, p, q - 1, next)
RECURSIVE SgmlFields(_, _, _, _)
SgmlFields(t, p, i, ver) ==
  IF i > Len(SgmlKeys) THEN (IF p > Len(t) THEN Verdict_("ok", TRUE, ver) ELSE Refuse)
  ELSE IF ~StartsAt(t, p, SgmlKeys[i] \o ":") THEN Refuse
  ELSE LET b == SkipWs(t, p + Len(SgmlKeys[i]) + 1)
           e == EndOfValue(t, b, RunEnd(t, b, SgmlCls[i]), IF i = Len(SgmlKeys) THEN "" ELSE SgmlKeys[i + 1])
           v == SubSeq(t, b, e - 1)
       IN IF e = 0 \/ ~SgmlValueOk(i, v) THEN Refuse
          ELSE SgmlFields(t, SkipWs(t, e), i + 1, IF i = 3 THEN v ELSE ver)
ReadSgml(t) == IF Find(t, "<") # 0 THEN Refuse
               ELSE IF Len(t) > 1000 THEN Loose
               ELSE SgmlFields(t, 1, 1, "")

\* ---- 2.x
XmlKeys == {"OFXHEADER", "VERSION", "SECURITY", "OLDFILEUID", "NEWFILEUID"}
\* Declarations every XML reader accepts; other texts are not modelled.
XmlDecls == {"<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\"?>", "<?xml version=\"1.0\"?>", "<?xml version='1.0' encoding='utf-8'?>",
             "<?xml version=\"1.0\" encoding=\"USASCII\" standalone=\"no\"?>", "<?xml version=\"1.0\" encoding=\"UTF-8\" ?>"}
\* Attributes of the OFX instruction; seen: keys so far.
RECURSIVE XmlAttrs(_, _, _)
XmlAttrs(s, seen, ver) ==
  LET t == Trim(s) IN
  IF t = "" THEN (IF {"OFXHEADER", "VERSION"} \subseteq seen THEN Verdict_("ok", FALSE, ver) ELSE Refuse)
  ELSE LET e == IndexOf(t, "=\"") IN
       IF e = 0 THEN Refuse
       ELSE LET key == Before(t, e)  r == SubSeq(t, e + 2, Len(t))  q == Find(r, "\"") IN
            IF q = 0 \/ key \notin XmlKeys THEN Refuse
            ELSE LET v == Before(r, q) IN
                 IF \/ key = "OFXHEADER" /\ v # "200"
                    \/ key = "SECURITY" /\ v # "NONE"
                    \/ key = "VERSION" /\ Trim(v) \notin XmlVersions
                 THEN Refuse
                 \* a version with white space inside its quotes, and a version given twice, are nobody's business
                 ELSE IF key = "VERSION" /\ (v # Trim(v) \/ (key \in seen /\ v # ver)) THEN Loose
                 ELSE XmlAttrs(After(r, q), seen \cup {key}, IF key = "VERSION" THEN v ELSE ver)
ReadXml(t0) ==
  LET t == LTrim(t0, WS) IN
  IF ~HasPrefix(t, "<?xml") THEN Refuse
  ELSE LET e == IndexOf(t, "?>") IN
       IF e = 0 THEN Refuse
       ELSE LET decl == SubSeq(t, 1, e + 1)  u == LTrim(SubSeq(t, e + 2, Len(t)), WS) IN
            IF ~HasPrefix(u, "<?OFX") \/ (Len(u) > 5 /\ Ch(u, 6) \notin WS \cup {"?"}) THEN Refuse
            ELSE LET f == IndexOf(u, "?>") IN
                 IF f = 0 THEN Refuse
                 ELSE LET v == XmlAttrs(SubSeq(u, 6, f - 1), {}, "") IN
                      IF v.st # "ok" THEN v
                      ELSE IF Trim(SubSeq(u, f + 2, Len(u))) # "" THEN Refuse
                      ELSE IF decl \in XmlDecls THEN v ELSE Loose

\* ---- which of the two
Peeked(t) == IF Len(t) <= 1024 THEN t ELSE SubSeq(t, 1, 1024)
IsSgml(t) == LET s == IndexOf(Peeked(t), "OFXHEADER:")  x == IndexOf(Peeked(t), "OFXHEADER=") IN s # 0 /\ (x = 0 \/ s < x)
ReadHead(t) == IF IsSgml(t) THEN ReadSgml(t) ELSE ReadXml(t)

\* ---- the header a document of a version has to begin with, for writers: any that is read as that version, and
\* whose line ends are as asked (cr: every line end is CR LF; otherwise plain LF).
LineEnds(t, cr) == \A i \in 1..Len(t) : /\ Ch(t, i) = "\r" => cr /\ i < Len(t) /\ Ch(t, i + 1) = "\n"
                                        /\ Ch(t, i) = "\n" /\ cr => i > 1 /\ Ch(t, i - 1) = "\r"
HeadFor(t, ver, cr) == LET h == ReadHead(t) IN h.st = "ok" /\ h.ver = ver /\ h.sgml = (ver \in SgmlVersions) /\ LineEnds(t, cr)
=============================================================================
