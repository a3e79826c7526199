------------------------------- MODULE OfxCli -------------------------------
(***************************************************************************)
(* The ofx command-line tool: what each command asks the server for, given *)
(* its flags, what a listing command shows of an answer, and in which      *)
(* order detect-settings tries its candidates.                             *)
(*                                                                         *)
(* Flags: a function from flag names to the text given; a flag not given   *)
(* has its default.                                                        *)
(***************************************************************************)
EXTENDS OfxValid
Flag(f, n, dflt) == IF n \in DOMAIN f THEN f[n] ELSE dflt
On(f, n) == Flag(f, n, "") # ""

Lists     == {"transactions-bank", "transactions-cc", "transactions-inv", "get-accounts"}
Downloads == {"download-bank", "download-cc", "download-inv", "download-profile"}
Commands  == Lists \cup Downloads
Anonymous == "anonymous00000000000000000000000"

\* ---- the request
Asks == [c \in Commands |-> CASE c \in {"transactions-bank", "download-bank"} -> "bank" [] c \in {"transactions-cc", "download-cc"} -> "cc"
                             [] c \in {"transactions-inv", "download-inv"} -> "inv" [] c = "get-accounts" -> "accts" [] OTHER -> "prof"]
Anon(c, f) == c = "download-profile" /\ Flag(f, "username", "") = ""
User(c, f) == IF Anon(c, f) THEN Anonymous ELSE Flag(f, "username", "")
Pass(c, f) == IF Anon(c, f) THEN Anonymous ELSE Flag(f, "password", "")
Given(m) == [k \in {k \in DOMAIN m : m[k] # ""} |-> m[k]]
Account(c, f) ==
  CASE Asks[c] = "bank" -> ("Bank#" :> "1") @@ ("Bank[0]@" :> "StatementRequest/STMTTRNRQ/BANKMSGSRQV1") @@ ("Bank[0].TrnUID" :> "u")
           @@ ("Bank[0].BankAcctFrom.BankID" :> Flag(f, "bankid", "")) @@ ("Bank[0].BankAcctFrom.AcctID" :> Flag(f, "acctid", ""))
           @@ ("Bank[0].BankAcctFrom.AcctType" :> Flag(f, "accttype", "CHECKING")) @@ ("Bank[0].Include" :> "Y")
    [] Asks[c] = "cc" -> ("CreditCard#" :> "1") @@ ("CreditCard[0]@" :> "CCStatementRequest/CCSTMTTRNRQ/CREDITCARDMSGSRQV1") @@ ("CreditCard[0].TrnUID" :> "u")
           @@ ("CreditCard[0].CCAcctFrom.AcctID" :> Flag(f, "acctid", "")) @@ ("CreditCard[0].Include" :> "Y")
    [] Asks[c] = "inv" -> ("InvStmt#" :> "1") @@ ("InvStmt[0]@" :> "InvStatementRequest/INVSTMTTRNRQ/INVSTMTMSGSRQV1") @@ ("InvStmt[0].TrnUID" :> "u")
           @@ ("InvStmt[0].InvAcctFrom.BrokerID" :> Flag(f, "brokerid", "")) @@ ("InvStmt[0].InvAcctFrom.AcctID" :> Flag(f, "acctid", ""))
           @@ [k \in {"InvStmt[0]." \o x : x \in {"Include", "IncludeOO", "IncludePos", "IncludeBalance", "Include401K", "Include401KBal"}} |-> "Y"]
    [] Asks[c] = "accts" -> ("Signup#" :> "1") @@ ("Signup[0]@" :> "AcctInfoRequest/ACCTINFOTRNRQ/SIGNUPMSGSRQV1") @@ ("Signup[0].TrnUID" :> "u")
           @@ ("Signup[0].DtAcctUp" :> "0:0")                                   \* all accounts: changed since 1970
    [] OTHER -> ("Prof#" :> "1") @@ ("Prof[0]@" :> "ProfileRequest/PROFTRNRQ/PROFMSGSRQV1") @@ ("Prof[0].TrnUID" :> "u")
SignonOf(user, pass, f, id, appver) ==
  ("Signon.UserID" :> user) @@ ("Signon.UserPass" :> pass) @@ ("Signon.Org" :> Flag(f, "org", "")) @@ ("Signon.Fid" :> Flag(f, "fid", ""))
  @@ ("Signon.ClientUID" :> Flag(f, "clientuid", "")) @@ ("Signon.AppID" :> id) @@ ("Signon.AppVer" :> appver) @@ ("Signon.DtClient" :> "0:0")
\* An empty application id or version leaves it to the client.
IdOf(f) == IF Flag(f, "appid", "QWIN") = "" THEN "OFXGO" ELSE Flag(f, "appid", "QWIN")
AppVerOf(f) == IF Flag(f, "appver", "2400") = "" THEN "0001" ELSE Flag(f, "appver", "2400")
Request(c, f) == Given(SignonOf(User(c, f), Pass(c, f), f, IdOf(f), AppVerOf(f)) @@ Account(c, f))

VersionText(f) == Flag(f, "ofxversion", "203")
KnownVersion(t) == \E i \in 1..Len(OfxVersions) : ToString(OfxVersions[i]) = t
\* Is it a request the command may send?
FlagsOk(c, f) ==
  /\ Flag(f, "url", "") # "" /\ User(c, f) # "" /\ Pass(c, f) # ""
  /\ (c \in Downloads => Flag(f, "filename", "./response.ofx") # "")
  /\ KnownVersion(VersionText(f))
  /\ (Asks[c] = "bank" => Flag(f, "accttype", "CHECKING") \in EnumSet("AcctType"))
Sendable(c, f) == FlagsOk(c, f) /\ Gate("rq", Request(c, f), NatOf(VersionText(f)))

\* ---- listings.  An entry is one line; its items come in this order: <<"lit", text>>, <<"date", v>>, <<"amt", v>>, <<"rest", text>> (to the end of the line)
Lit(t) == <<"lit", t>>
Amt(m, p) == <<"amt", IF Has(m, p) THEN m[p] ELSE "0">>
Dat(m, p) == <<"date", IF Has(m, p) THEN m[p] ELSE ZeroOf("date")>>
Txt(m, p) == Lit(G(m, p))
Int_(m, p) == <<"amt", IF Has(m, p) THEN m[p] ELSE "0">>
CurAt(m, p) == Lit(IF Has(m, p) THEN m[p] ELSE "XXX")
\* the currency of an investment transaction, where it has one of its own
OwnCur(m, p, def) == IF CurrencyOk(m, p \o ".Currency") THEN Txt(m, p \o ".Currency.CurSym") ELSE def
TrnName(m, p) ==
  LET n == IF G(m, p \o ".Name") # "" THEN m[p \o ".Name"] ELSE G(m, p \o ".Payee.Name") IN
  IF G(m, p \o ".Memo") # "" THEN n \o " - " \o m[p \o ".Memo"] ELSE n
Trn(m, p, def) == <<Dat(m, p \o ".DtPosted"), Amt(m, p \o ".TrnAmt"), IF Ptr(m, p \o ".Currency") THEN CurAt(m, p \o ".Currency.CurSym") ELSE def,
                    Txt(m, p \o ".TrnType"), <<"rest", TrnName(m, p)>>>>
Trns(m, l, def) == [i \in 1..Num(m, l \o ".Transactions") |-> Trn(m, l \o ".Transactions" \o Idx(i - 1), def)]
Statement(m, p) ==
  LET def == CurAt(m, p \o ".CurDef") IN
  << <<Amt(m, p \o ".BalAmt"), def, Dat(m, p \o ".DtAsOf")>> >> \o Trns(m, p \o ".BankTranList", def)

Sec(m, p) == <<Txt(m, p \o ".SecID.UniqueIDType"), Txt(m, p \o ".SecID.UniqueID")>>
Trade(m, p, def) == <<Dat(m, p \o ".InvTran.DtTrade"), Amt(m, p \o ".Units")>> \o Sec(m, p) \o <<Amt(m, p \o ".UnitPrice"), OwnCur(m, p, def), Amt(m, p \o ".Total")>>
InvTrn(m, p, def) ==
  LET key == m[p \o "@"]  ty == Before(key, Find(key, "/"))  tag == After(key, Find(key, "/"))  d == Dat(m, p \o ".InvTran.DtTrade")
      T == CASE HasPrefix(ty, "Buy") -> Trade(m, p \o ".InvBuy", def)
             [] HasPrefix(ty, "Sell") -> Trade(m, p \o ".InvSell", def)
             [] ty = "ClosureOpt" -> <<d, Txt(m, p \o ".OptAction"), Amt(m, p \o ".Units"), Int_(m, p \o ".ShPerCtrct")>>
             [] ty = "Income" -> <<d, Txt(m, p \o ".IncomeType"), Amt(m, p \o ".Total"), OwnCur(m, p, def)>> \o Sec(m, p)
             [] ty \in {"InvExpense", "RetOfCap"} -> <<d, Amt(m, p \o ".Total"), OwnCur(m, p, def)>> \o Sec(m, p)
             [] ty = "JrnlFund" -> <<d, Amt(m, p \o ".Total"), def, Txt(m, p \o ".SubAcctFrom"), Txt(m, p \o ".SubAcctTo")>>
             [] ty = "JrnlSec" -> <<d, Amt(m, p \o ".Units")>> \o Sec(m, p) \o <<Txt(m, p \o ".SubAcctFrom"), Txt(m, p \o ".SubAcctTo")>>
             [] ty = "MarginInterest" -> <<d, Amt(m, p \o ".Total"), OwnCur(m, p, def)>>
             [] ty = "Reinvest" -> Trade(m, p, def)
             [] ty = "Split" -> <<d, Int_(m, p \o ".Numerator"), Int_(m, p \o ".Denominator"), Amt(m, p \o ".OldUnits"), Amt(m, p \o ".NewUnits")>> \o Sec(m, p)
                                \o <<Amt(m, p \o ".FracCash"), OwnCur(m, p, def)>>
             [] OTHER -> <<d, Amt(m, p \o ".Units")>> \o Sec(m, p) \o <<Txt(m, p \o ".TferAction")>>
  IN <<Lit(tag)>> \o T
InvStatement(m, p) ==
  LET def == CurAt(m, p \o ".CurDef")  l == p \o ".InvTranList"
      bal == IF Ptr(m, p \o ".InvBal") /\ Has(m, p \o ".InvBal.AvailCash") THEN << <<Amt(m, p \o ".InvBal.AvailCash"), def, Dat(m, p \o ".DtAsOf")>> >> ELSE <<>>
      banks == Flat([i \in 1..Num(m, l \o ".BankTransactions") |-> LET b == l \o ".BankTransactions" \o Idx(i - 1) IN << <<Txt(m, b \o ".SubAcctFund")>> >> \o Trns(m, b, def)])
  IN bal \o banks \o [i \in 1..Num(m, l \o ".InvTransactions") |-> InvTrn(m, l \o ".InvTransactions" \o Idx(i - 1), def)]
Acct(m, p) ==
  IF Ptr(m, p \o ".BankAcctInfo")
  THEN LET b == p \o ".BankAcctInfo.BankAcctFrom" IN << <<Lit("Bank Account")>>, <<Txt(m, b \o ".BankID")>>, <<Txt(m, b \o ".AcctID")>>, <<Txt(m, b \o ".AcctType")>> >>
  ELSE IF Ptr(m, p \o ".CCAcctInfo") THEN << <<Lit("Credit card")>>, <<Txt(m, p \o ".CCAcctInfo.CCAcctFrom.AcctID")>> >>
  ELSE IF Ptr(m, p \o ".InvAcctInfo")
  THEN LET b == p \o ".InvAcctInfo.InvAcctFrom" IN << <<Lit("Investment account")>>, <<Txt(m, b \o ".BrokerID")>>, <<Txt(m, b \o ".AcctID")>> >>
  ELSE << <<Lit("Unknown type"), Txt(m, p \o ".Name"), Txt(m, p \o ".Desc")>> >>

Slot == [c \in Lists |-> CASE c = "transactions-bank" -> "Bank" [] c = "transactions-cc" -> "CreditCard" [] c = "transactions-inv" -> "InvStmt" [] OTHER -> "Signup"]
Listing(c, m) ==
  LET p == Slot[c] \o "[0]" IN
  CASE c = "transactions-bank" -> Statement(m, p)
    [] c = "transactions-cc" -> Statement(m, p)
    [] c = "transactions-inv" -> InvStatement(m, p)
    [] OTHER -> Flat([i \in 1..Num(m, p \o ".AcctInfo") |-> Acct(m, p \o ".AcctInfo" \o Idx(i - 1))])

\* What has to come of an answer: "list", "fail" (with a diagnostic and a nonzero exit status), "either", or "open": no statement in it, and nothing wrong either.
SonCode(m) == StatusCode(m, "Signon.Status")
MsgCode(c, m) == StatusCode(m, Slot[c] \o "[0].Status")
IsError(code) == code \in KnownCodeTexts /\ SeverityOf[code] = "ERROR"
Outcome(c, m, ver, body) ==
  IF BadParts(m, ver) > 0 THEN "fail"
  ELSE IF IsError(SonCode(m)) \/ Num(m, Slot[c]) = 0 THEN "fail"
  ELSE IF ~body THEN IF IsError(MsgCode(c, m)) THEN "fail" ELSE "open"
  ELSE IF SonCode(m) # "0" \/ IsError(MsgCode(c, m)) THEN "either"
  ELSE "list"

\* ---- detect-settings
Apps == <<<<"OFXGO", <<"0001">>>>,
          <<"QWIN", <<"2600", "2500", "2400", "2300", "2200", "2100", "2000", "1900", "1800", "1700", "1600", "1500", "1400">>>>,
          <<"QMOFX", <<"1700", "1600", "1500", "1400">>>>,
          <<"QB", <<"1800", "1700", "1600", "1500">>>>,
          <<"Money", <<"1600", "1500", "1400", "1200", "1100">>>>>>
TryVersions == <<203, 103, 200, 201, 202, 210, 211, 102, 151, 160, 220>>
AppPairs == Flat([i \in 1..Len(Apps) |-> [j \in 1..Len(Apps[i][2]) |-> <<Apps[i][1], Apps[i][2][j]>>]])
NumCandidates == Len(AppPairs) * Len(TryVersions) * 2
\* candidate k (from 0): application, its version, OFX version, indentation
Candidate(pairs, k) == LET a == pairs[(k \div 22) + 1] IN [id |-> a[1], appver |-> a[2], ver |-> TryVersions[((k \div 2) % 11) + 1], indent |-> k % 2 = 0]
=============================================================================
