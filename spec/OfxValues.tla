----------------------------- MODULE OfxValues -----------------------------
(***************************************************************************)
(* The meaning of OFX leaf values: which texts are legal for each kind and *)
(* which abstract value each denotes.  Every operator Parse<Kind>(text)    *)
(* yields one of                                                           *)
(*    [st |-> "ok",  v |-> canonical text of the value]                    *)
(*    [st |-> "bad"]        the text must be rejected                      *)
(*    [st |-> "free"]       the property leaves it open                    *)
(* Abstract values are canonical strings so that the harness can compute   *)
(* the same canonical form from a Go value:                                *)
(*    int   shortest decimal           amt   shortest plain decimal        *)
(*    date  "<day number>:<ms of day>" in UTC, day 0 = 1970-01-01          *)
(*    bool  Y / N     str, uid  trimmed text    cur  ISO code              *)
(***************************************************************************)
EXTENDS OfxText

Ok(v)  == [st |-> "ok", v |-> v]
Bad    == [st |-> "bad", v |-> ""]
Free   == [st |-> "free", v |-> ""]

\* ---- integers
MaxI64 == "9223372036854775807"
MinI64 == "9223372036854775808"
Canon0(d) == LET z == LTrim(d, {"0"}) IN IF z = "" THEN "0" ELSE z

ParseInt(text) ==
  LET t   == Trim(text)
      sgn == IF t # "" /\ Ch(t,1) \in {"+","-"} THEN Ch(t,1) ELSE ""
      d   == IF sgn = "" THEN t ELSE SubSeq(t, 2, Len(t))
  IN IF ~IsDigits(d) THEN Bad
     ELSE LET c == Canon0(d) IN
          IF sgn = "-" THEN IF BigLeq(c, MinI64) THEN Ok(IF c = "0" THEN "0" ELSE "-" \o c) ELSE Bad
          ELSE IF BigLeq(c, MaxI64) THEN Ok(c) ELSE Bad

\* ---- amounts
\* [+-] digits [ (.|,) digits ] with at least one digit in total.
AmtShape(t) ==
  LET sgn == IF t # "" /\ Ch(t,1) \in {"+","-"} THEN Ch(t,1) ELSE ""
      b   == IF sgn = "" THEN t ELSE SubSeq(t, 2, Len(t))
      p   == FindAny(b, {".", ","})
      ip  == IF p = 0 THEN b ELSE Before(b, p)
      fp  == IF p = 0 THEN "" ELSE After(b, p)
  IN [ok |-> AllIn(ip, Digits) /\ AllIn(fp, Digits) /\ Len(ip) + Len(fp) > 0,
      neg |-> sgn = "-", int |-> ip, frac |-> fp]

CanonAmt(neg, ip, fp) ==
  LET i == Canon0(ip)  f == RTrim(fp, {"0"})
      m == IF f = "" THEN i ELSE i \o "." \o f
  IN IF m = "0" THEN "0" ELSE IF neg THEN "-" \o m ELSE m

\* Characters from which no decimal number can be rescued.
AmtJunk(t) == \E i \in 1..Len(t) : Ch(t,i) \in {"$", " ", "a_", "(", ")", "#", "%", "*", "g", "z", "Z", "G", "N", "n", "i", "\t", "\n"}
ParseAmt(text) ==
  LET t == Trim(text)  s == AmtShape(t)
  IN IF s.ok THEN Ok(CanonAmt(s.neg, s.int, s.frac))
     ELSE IF t = "" \/ AmtJunk(t) \/ (CountIn(t, {".", ","}) > 1 /\ AllIn(t, Digits \cup {".", ",", "+", "-"}))
             \/ AllIn(t, {"+", "-", ".", ","}) \/ (CountIn(t, {"+","-"}) > 1 /\ AllIn(t, Digits \cup {".", ",", "+", "-"}))
             \/ (AllIn(t, Digits \cup {"+", "-", ".", ","}) /\ CountIn(t, {"+","-"}) = 1 /\ Ch(t,1) \notin {"+","-"})
          THEN Bad
     ELSE Free      \* exponents, fractions, hexadecimal, ... are an extension the property leaves open

\* What the writer prints for the value of canonical text c (plain decimal).
PrintAmt(c) == c

\* ---- dates
IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m = 2 -> IF IsLeap(y) THEN 29 ELSE 28
                  [] m \in {4,6,9,11} -> 30
                  [] OTHER -> 31

\* Proleptic Gregorian day number, 1970-01-01 = 0 (all intermediate values positive for y >= 1).
DayNo(y, m, d) ==
  LET yy  == IF m <= 2 THEN y - 1 ELSE y
      mp  == (m + 9) % 12
      doy == (153 * mp + 2) \div 5 + d - 1
      doe == yy * 365 + yy \div 4 - yy \div 100 + yy \div 400 + doy
  IN doe - 719468

MsPerDay == 86400000
\* Instant of local civil time with zone offset in minutes east of GMT.
Instant(y, mo, d, h, mi, s, ms, off) ==
  LET t  == (h * 3600 + mi * 60 + s) * 1000 + ms - off * 60000
      dd == DayNo(y, mo, d)
  IN IF t < 0 THEN <<dd - 1, t + MsPerDay>>
     ELSE IF t >= MsPerDay THEN <<dd + 1, t - MsPerDay>>
     ELSE <<dd, t>>
CanonDate(i) == ToString(i[1]) \o ":" \o ToString(i[2])

\* Hundredths of an hour to whole minutes, nearest (a zone offset is a whole number of minutes).
HundToMin(hh) == (hh * 60 + 50) \div 100

\* The zone part, without brackets:  [+-]digits[.dd][:NAME]
ParseZone(z) ==
  LET c    == Find(z, ":")
      num  == IF c = 0 THEN z ELSE Before(z, c)
      name == IF c = 0 THEN "" ELSE After(z, c)
      nameOk == c = 0 \/ (Len(name) > 0 /\ AllIn(name, Upper))
      sgn  == IF num # "" /\ Ch(num,1) \in {"+","-"} THEN Ch(num,1) ELSE ""
      b    == IF sgn = "" THEN num ELSE SubSeq(num, 2, Len(num))
      p    == Find(b, ".")
      hp   == IF p = 0 THEN b ELSE Before(b, p)
      fp   == IF p = 0 THEN "00" ELSE After(b, p)
  IN IF ~IsDigits(hp) \/ ~AllIn(fp, Digits) \/ Len(fp) # 2 \/ (c # 0 /\ ~nameOk)
     THEN [st |-> IF IsDigits(hp) /\ AllIn(fp, Digits) /\ Len(fp) = 2 /\ c # 0 /\ name # "" THEN "free" ELSE "bad", off |-> 0]
     ELSE IF Len(hp) > 2 \/ NatOf(hp) > 14 THEN [st |-> "free", off |-> 0]
     ELSE LET m == NatOf(hp) * 60 + HundToMin(NatOf(fp))
          IN [st |-> "ok", off |-> IF sgn = "-" THEN -m ELSE m]

\* YYYYMMDD[HH[MM[SS[.XXX]]]]
ParseCivil(b) ==
  LET n  == Len(b)
      N(i, j) == NatOf(SubSeq(b, i, j))
      main == SubSeq(b, 1, Min(n, 14))
      shape == /\ n \in {8, 10, 12, 14, 18}
               /\ AllIn(main, Digits)
               /\ n = 18 => (Ch(b, 15) = "." /\ AllIn(SubSeq(b, 16, 18), Digits))
      h  == IF n >= 10 THEN N(9,10) ELSE 0
      mi == IF n >= 12 THEN N(11,12) ELSE 0
      s  == IF n >= 14 THEN N(13,14) ELSE 0
      ms == IF n = 18 THEN N(16,18) ELSE 0
  IN IF ~shape THEN [st |-> IF /\ n > 15 /\ AllIn(main, Digits) /\ Ch(b,15) \in {".", ","}
                               /\ AllIn(SubSeq(b,16,n), Digits)
                            THEN "free"       \* other numbers of fraction digits
                            ELSE "bad"]
     ELSE IF N(1,4) < 1 THEN [st |-> "free"]
     ELSE IF ~(N(5,6) \in 1..12) \/ ~(N(7,8) \in 1..DaysIn(N(1,4), N(5,6)))
             \/ h > 23 \/ mi > 59 \/ s > 59
          THEN [st |-> IF s = 60 THEN "free" ELSE "bad"]
     ELSE [st |-> "ok", y |-> N(1,4), mo |-> N(5,6), d |-> N(7,8), h |-> h, mi |-> mi, s |-> s, ms |-> ms]

ParseDate(text) ==
  LET t == Trim(text)
      p == Find(t, "[")
      q == Find(t, "]")
      body == IF p = 0 THEN t ELSE Before(t, p)
      c == ParseCivil(body)
  IN IF CountIn(t, WS) > 0 THEN Free                    \* blanks inside
     ELSE IF p = 0
     THEN IF q # 0 THEN Free
          ELSE IF c.st # "ok" THEN [st |-> c.st, v |-> ""]
          ELSE Ok(CanonDate(Instant(c.y, c.mo, c.d, c.h, c.mi, c.s, c.ms, 0)))
     ELSE IF q = 0 \/ q < p \/ q # Len(t) THEN Free      \* unterminated or trailing text
     ELSE LET z == ParseZone(SubSeq(t, p+1, q-1)) IN
          IF c.st = "bad" \/ z.st = "bad" THEN Bad
          ELSE IF c.st = "free" \/ z.st = "free" THEN Free
          ELSE Ok(CanonDate(Instant(c.y, c.mo, c.d, c.h, c.mi, c.s, c.ms, z.off)))

ZeroDate == CanonDate(<<DayNo(1,1,1), 0>>)

\* ---- booleans, uids, text
ParseBool(text) == LET t == Trim(text) IN IF t \in {"Y", "N"} THEN Ok(t) ELSE Bad
ParseUid(text)  == Ok(Trim(text))
ParseStr(text)  == Ok(Trim(text))

UidValid(n) == n >= 1 /\ n <= 36        \* n: length in bytes
UidRecommended(u) == /\ Len(u) = 36
                     /\ Ch(u, 9) = "-" /\ Ch(u, 14) = "-" /\ Ch(u, 19) = "-" /\ Ch(u, 24) = "-"
UidRandomShape(u) == /\ UidRecommended(u)
                     /\ \A i \in 1..36 \ {9, 14, 19, 24} : Ch(u, i) \in HexLower

\* ---- currencies
\* A representative set of ISO-4217 codes in current use; other three-letter codes are left open.
IsoCodes == {"USD","EUR","GBP","JPY","CHF","CAD","AUD","NZD","SEK","NOK","DKK","CNY","INR","BRL","MXN",
             "ZAR","SGD","HKD","KRW","PLN","CZK","HUF","TRY","ILS","THB","IDR","MYR","PHP","CLP","COP",
             "PEN","ARS","EGP","KWD","BHD","JOD","TND","ISK","RON","BGN","UAH","VND","PKR","NGN","KES","XXX"}
NotIso   == {"ZZZ","QQQ","US","USDX","U","12A","US$","U D","XYZ1"}
ParseCur(text) ==
  LET t == Trim(text)
  IN IF t \in IsoCodes THEN Ok(t)
     ELSE IF Len(t) # 3 \/ ~AllIn(t, Upper \cup Lower) \/ t \in NotIso THEN Bad
     ELSE Free

\* ---- wire escaping
\* The wire text of a string value: markup characters must be escaped.
EscChar(c) == CASE c = "&" -> "&amp;" [] c = "<" -> "&lt;" [] c = ">" -> "&gt;" [] OTHER -> c
RECURSIVE Escape(_)
Escape(s) == IF s = "" THEN "" ELSE EscChar(Ch(s,1)) \o Escape(SubSeq(s, 2, Len(s)))

\* Reading entities back.  Unknown entities are outside the grammar.
Entities == [amp |-> "&", lt |-> "<", gt |-> ">", quot |-> "\"", apos |-> "'"]
            @@ ("#34" :> "\"") @@ ("#39" :> "'") @@ ("#38" :> "&") @@ ("#60" :> "<") @@ ("#62" :> ">") @@ ("#x26" :> "&") @@ ("#65" :> "A")
RECURSIVE Unescape(_)
Unescape(s) ==
  IF s = "" THEN ""
  ELSE IF Ch(s,1) # "&" THEN Ch(s,1) \o Unescape(SubSeq(s, 2, Len(s)))
  ELSE LET q == Find(s, ";") IN
       IF q > 2 /\ SubSeq(s, 2, q-1) \in DOMAIN Entities
       THEN Entities[SubSeq(s, 2, q-1)] \o Unescape(SubSeq(s, q+1, Len(s)))
       ELSE "&" \o Unescape(SubSeq(s, 2, Len(s)))
=============================================================================
