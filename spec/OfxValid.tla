------------------------------ MODULE OfxValid ------------------------------
(***************************************************************************)
(* Which requests and responses OFX allows.  Objects are projections (see  *)
(* OfxReader): functions from API paths to canonical values.  A path that  *)
(* is absent has its type's zero value.                                    *)
(***************************************************************************)
EXTENDS OfxReader, OfxStatus

OfxVersions == <<102, 103, 151, 160, 200, 201, 202, 203, 210, 211, 220>>
SlotOrder == [i \in 1..Len(RsSets) |-> RsSets[i].slot]

G(m, p)    == IF p \in DOMAIN m THEN m[p] ELSE ""
Has(m, p)  == p \in DOMAIN m
Ptr(m, p)  == (p \o "!") \in DOMAIN m
Num(m, p)  == IF (p \o "#") \in DOMAIN m THEN NatOf(m[p \o "#"]) ELSE 0

\* Length in bytes; ~e~ stands for two characters of two and three bytes (see core.py).
RECURSIVE ByteLen(_)
ByteLen(s) == IF s = "" THEN 0 ELSE IF HasPrefix(s, "~e~") THEN 5 + ByteLen(SubSeq(s, 4, Len(s))) ELSE 1 + ByteLen(SubSeq(s, 2, Len(s)))
LenIn(s, lo, hi) == LET n == ByteLen(s) IN n >= lo /\ n <= hi
EnumOk(m, p, k) == G(m, p) \in EnumSet(k)

UidOk(m, p)  == LenIn(G(m, p), 1, 36)
CurSymOk(m, p) == G(m, p) # ""
StatusCode(m, p) == IF Has(m, p \o ".Code") THEN m[p \o ".Code"] ELSE "0"
KnownCodeTexts == {ToString(c) : c \in KnownCodes}
SeverityOf == [t \in KnownCodeTexts |-> StatusSeverity(CHOOSE c \in KnownCodes : ToString(c) = t)]
StatusOk(m, p) == LET c == StatusCode(m, p) IN c \in KnownCodeTexts /\ G(m, p \o ".Severity") = SeverityOf[c]

BankAcctOk(m, p) == G(m, p \o ".BankID") # "" /\ G(m, p \o ".AcctID") # "" /\ EnumOk(m, p \o ".AcctType", "AcctType")
CCAcctOk(m, p)   == G(m, p \o ".AcctID") # ""
CurrencyOk(m, p) == Has(m, p \o ".CurRate") /\ CurSymOk(m, p \o ".CurSym")
PayeeOk(m, p) == /\ \A f \in {"Name", "Addr1", "City", "State", "PostalCode", "Phone"} : G(m, p \o "." \o f) # ""
                 /\ ByteLen(G(m, p \o ".Country")) \in {0, 3}
BalanceOk(m, p) == G(m, p \o ".Name") # "" /\ G(m, p \o ".Desc") # "" /\ EnumOk(m, p \o ".BalType", "BalType")

TransactionOk(m, p, ver) ==
  /\ EnumOk(m, p \o ".TrnType", "TrnType") /\ G(m, p \o ".TrnType") # "HOLD"
  /\ Has(m, p \o ".DtPosted")
  /\ G(m, p \o ".FiTID") # ""
  /\ G(m, p \o ".CorrectFiTID") # "" => EnumOk(m, p \o ".CorrectAction", "CorrectAction")
  /\ ~(G(m, p \o ".Name") # "" /\ Ptr(m, p \o ".Payee"))
  /\ Ptr(m, p \o ".Payee") => PayeeOk(m, p \o ".Payee")
  /\ ~(Ptr(m, p \o ".BankAcctTo") /\ Ptr(m, p \o ".CCAcctTo"))
  /\ Ptr(m, p \o ".BankAcctTo") => BankAcctOk(m, p \o ".BankAcctTo")
  /\ Ptr(m, p \o ".CCAcctTo") => CCAcctOk(m, p \o ".CCAcctTo")
  /\ Num(m, p \o ".ImageData") <= (IF ver < 220 THEN 0 ELSE 2)
  /\ ~(Ptr(m, p \o ".Currency") /\ CurrencyOk(m, p \o ".Currency") /\ Ptr(m, p \o ".OrigCurrency") /\ CurrencyOk(m, p \o ".OrigCurrency"))
\* Free: OFX says the action comes with the corrected id; the reverse is not documented by the library.
PendingOk(m, p) ==
  /\ EnumOk(m, p \o ".TrnType", "TrnType")
  /\ Has(m, p \o ".DtTran")
  /\ G(m, p \o ".Name") # ""
  /\ ~(CurrencyOk(m, p \o ".Currency") /\ CurrencyOk(m, p \o ".OrigCurrency"))

StatementOk(m, p, ver) ==
  /\ UidOk(m, p \o ".TrnUID") /\ StatusOk(m, p \o ".Status") /\ CurSymOk(m, p \o ".CurDef")
  /\ BankAcctOk(m, p \o ".BankAcctFrom")
  /\ Has(m, p \o ".DtAsOf")
  /\ Has(m, p \o ".AvailBalAmt") <=> Has(m, p \o ".AvailDtAsOf")
  /\ LET l == p \o ".BankTranList" IN Ptr(m, l) =>
       /\ Has(m, l \o ".DtStart") /\ Has(m, l \o ".DtEnd")
       /\ \A i \in 1..Num(m, l \o ".Transactions") : TransactionOk(m, l \o ".Transactions" \o Idx(i - 1), ver)
  /\ LET l == p \o ".BankTranListP" IN Ptr(m, l) =>
       /\ ver >= 220 /\ Has(m, l \o ".DtAsOf")
       /\ \A i \in 1..Num(m, l \o ".Transactions") : PendingOk(m, l \o ".Transactions" \o Idx(i - 1))
  /\ \A i \in 1..Num(m, p \o ".BalList") : BalanceOk(m, p \o ".BalList" \o Idx(i - 1))

StatementRqOk(m, p, ver) ==
  /\ UidOk(m, p \o ".TrnUID")
  /\ G(m, p \o ".IncludePending") = "Y" => ver >= 220
  /\ G(m, p \o ".IncTranImg") = "Y" => ver >= 210
  /\ BankAcctOk(m, p \o ".BankAcctFrom")

SonRqOk(m, p) ==
  /\ LenIn(G(m, p \o ".UserID"), 1, 32)
  /\ (G(m, p \o ".UserPass") = "") # (G(m, p \o ".UserKey") = "")
  /\ LenIn(G(m, p \o ".UserPass"), 0, 32) /\ LenIn(G(m, p \o ".UserKey"), 0, 64)
  /\ ByteLen(G(m, p \o ".Language")) \in {0, 3}
  /\ LenIn(G(m, p \o ".AppID"), 1, 5) /\ LenIn(G(m, p \o ".AppVer"), 1, 4)
SonRsOk(m, p) == ByteLen(G(m, p \o ".Language")) = 3 /\ StatusOk(m, p \o ".Status")

MsgOk(kind, m, p, ver) ==
  CASE kind = "StatementResponse" -> StatementOk(m, p, ver)
    [] kind = "StatementRequest" -> StatementRqOk(m, p, ver)
    [] kind = "SecurityList" -> TRUE
    [] kind = "SignonRequest" -> SonRqOk(m, p)
    [] kind = "SignonResponse" -> SonRsOk(m, p)
    [] OTHER -> UidOk(m, p \o ".TrnUID")

\* ---- whole objects
SonOk(side, m) == IF side = "rq" THEN SonRqOk(m, "Signon") ELSE SonRsOk(m, "Signon")
KindAt(m, p) == LET s == m[p \o "@"] IN Before(s, Find(s, "/"))
SetOfKind == [k \in {"SignonRequest", "SignonResponse"} \cup UNION {{RsSets[i].msgs[j].a : j \in 1..Len(RsSets[i].msgs)} : i \in 1..Len(RsSets)}
                     \cup UNION {{RqSets[i].msgs[j].a : j \in 1..Len(RqSets[i].msgs)} : i \in 1..Len(RqSets)} |->
   IF k = "SignonRequest" THEN RqSonSet ELSE IF k = "SignonResponse" THEN SonSet
   ELSE LET R == {i \in 1..Len(RsSets) : \E j \in 1..Len(RsSets[i].msgs) : RsSets[i].msgs[j].a = k}
            Q == {i \in 1..Len(RqSets) : \E j \in 1..Len(RqSets[i].msgs) : RqSets[i].msgs[j].a = k}
        IN IF R # {} THEN RsSets[CHOOSE i \in R : TRUE].set ELSE RqSets[CHOOSE i \in Q : TRUE].set]
SetOfSlot(side, i) == IF side = "rq" THEN RqSets[i].set ELSE RsSets[i].set

\* The messages of an object: <<slot, place, path>> in the order OFX prescribes.
Messages(m) == Flat([i \in 1..Len(SlotOrder) |-> [j \in 1..Num(m, SlotOrder[i]) |-> <<i, j, SlotOrder[i] \o Idx(j - 1)>>]])
Oks(m, ver) == LET ms == Messages(m) IN [k \in 1..Len(ms) |-> MsgOk(KindAt(m, ms[k][3]), m, ms[k][3], ver)]
InPlace(side, m) == LET ms == Messages(m) IN \A k \in 1..Len(ms) : SetOfKind[KindAt(m, ms[k][3])] = SetOfSlot(side, ms[k][1])
Gate(side, m, ver) == /\ ver \in RangeOf(OfxVersions) /\ SonOk(side, m)
                      /\ \A k \in 1..Len(Messages(m)) : Oks(m, ver)[k]
                      /\ InPlace(side, m)
BadParts(m, ver) == (IF SonOk("rs", m) THEN 0 ELSE 1) + Cardinality({k \in 1..Len(Messages(m)) : ~Oks(m, ver)[k]})
=============================================================================
