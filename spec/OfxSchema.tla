----------------------------- MODULE OfxSchema -----------------------------
(***************************************************************************)
(* The vocabulary of OFX documents: for every aggregate, its elements in    *)
(* specification order.  An element is                                      *)
(*   [t |-> tag, f |-> API field, k |-> kind, c |-> cardinality,            *)
(*    a |-> aggregate, p |-> field is a pointer (absence is observable)]    *)
(* kind: a leaf kind (OfxLeaf), "agg", or "mix" for a list of alternatives  *)
(* (Mix).  cardinality: "1" always written, "?" written when set, "*" list. *)
(* An empty f means the element only wraps others: their fields belong to   *)
(* the enclosing object.                                                    *)
(***************************************************************************)
EXTENDS Sequences, TLC

L(t, f, k, c)     == [t |-> t, f |-> f, k |-> k, c |-> c, a |-> "", p |-> FALSE]
LP(t, f, k, c)    == [t |-> t, f |-> f, k |-> k, c |-> c, a |-> "", p |-> TRUE]
A(t, f, c, a)     == [t |-> t, f |-> f, k |-> "agg", c |-> c, a |-> a, p |-> FALSE]
AP(t, f, c, a)    == [t |-> t, f |-> f, k |-> "agg", c |-> c, a |-> a, p |-> TRUE]
MX(a)             == [t |-> "", f |-> "", k |-> "mix", c |-> "mix", a |-> a, p |-> FALSE]

Schema == [
  SignonRequest |-> <<
    L("DTCLIENT","DtClient","date","1"),
    L("USERID","UserID","str","1"),
    L("USERPASS","UserPass","str","?"),
    L("USERKEY","UserKey","str","?"),
    L("GENUSERKEY","GenUserKey","bool","?"),
    L("LANGUAGE","Language","str","1"),
    A("FI","","?","SignonRequest_FI"),
    L("APPID","AppID","str","1"),
    L("APPVER","AppVer","str","1"),
    L("CLIENTUID","ClientUID","uid","?")>>,
  SignonRequest_FI |-> <<
    L("ORG","Org","str","1"),
    L("FID","Fid","str","1")>>,
  SignonResponse |-> <<
    A("STATUS","Status","1","Status"),
    L("DTSERVER","DtServer","date","1"),
    L("USERKEY","UserKey","str","?"),
    LP("TSKEYEXPIRE","TsKeyExpire","date","?"),
    L("LANGUAGE","Language","str","1"),
    LP("DTPROFUP","DtProfUp","date","?"),
    LP("DTACCTUP","DtAcctUp","date","?"),
    A("FI","","?","SignonResponse_FI"),
    L("SESSCOOKIE","SessCookie","str","?"),
    L("ACCESSKEY","AccessKey","str","?")>>,
  SignonResponse_FI |-> <<
    L("ORG","Org","str","1"),
    L("FID","Fid","str","1")>>,
  Status |-> <<
    L("CODE","Code","int","1"),
    L("SEVERITY","Severity","str","1"),
    L("MESSAGE","Message","str","?")>>,
  StatementRequest |-> <<
    L("TRNUID","TrnUID","uid","1"),
    L("CLTCOOKIE","CltCookie","str","?"),
    L("TAN","TAN","str","?"),
    A("STMTRQ","","?","StatementRequest_STMTRQ")>>,
  StatementRequest_STMTRQ |-> <<
    A("BANKACCTFROM","BankAcctFrom","1","BankAcct"),
    A("INCTRAN","","?","StatementRequest_STMTRQ_INCTRAN"),
    L("INCLUDEPENDING","IncludePending","bool","?"),
    L("INCTRANIMG","IncTranImg","bool","?")>>,
  StatementRequest_STMTRQ_INCTRAN |-> <<
    LP("DTSTART","DtStart","date","?"),
    LP("DTEND","DtEnd","date","?"),
    L("INCLUDE","Include","bool","1")>>,
  BankAcct |-> <<
    L("BANKID","BankID","str","1"),
    L("BRANCHID","BranchID","str","?"),
    L("ACCTID","AcctID","str","1"),
    L("ACCTTYPE","AcctType","AcctType","1"),
    L("ACCTKEY","AcctKey","str","?")>>,
  StatementResponse |-> <<
    L("TRNUID","TrnUID","uid","1"),
    A("STATUS","Status","1","Status"),
    L("CLTCOOKIE","CltCookie","str","?"),
    A("STMTRS","","?","StatementResponse_STMTRS")>>,
  StatementResponse_STMTRS |-> <<
    L("CURDEF","CurDef","cur","1"),
    A("BANKACCTFROM","BankAcctFrom","1","BankAcct"),
    AP("BANKTRANLIST","BankTranList","?","TransactionList"),
    AP("BANKTRANLISTP","BankTranListP","?","PendingTransactionList"),
    A("LEDGERBAL","","?","StatementResponse_STMTRS_LEDGERBAL"),
    A("AVAILBAL","","?","StatementResponse_STMTRS_AVAILBAL"),
    LP("CASHADVBALAMT","CashAdvBalAmt","amt","?"),
    LP("INTRATE","IntRate","amt","?"),
    A("BALLIST","","?","StatementResponse_STMTRS_BALLIST"),
    L("MKTGINFO","MktgInfo","str","?")>>,
  StatementResponse_STMTRS_LEDGERBAL |-> <<
    L("BALAMT","BalAmt","amt","1"),
    L("DTASOF","DtAsOf","date","1")>>,
  StatementResponse_STMTRS_AVAILBAL |-> <<
    LP("BALAMT","AvailBalAmt","amt","?"),
    LP("DTASOF","AvailDtAsOf","date","?")>>,
  StatementResponse_STMTRS_BALLIST |-> <<
    A("BAL","BalList","*","Balance")>>,
  TransactionList |-> <<
    L("DTSTART","DtStart","date","1"),
    L("DTEND","DtEnd","date","1"),
    A("STMTTRN","Transactions","*","Transaction")>>,
  Transaction |-> <<
    L("TRNTYPE","TrnType","TrnType","1"),
    L("DTPOSTED","DtPosted","date","1"),
    LP("DTUSER","DtUser","date","?"),
    LP("DTAVAIL","DtAvail","date","?"),
    L("TRNAMT","TrnAmt","amt","1"),
    L("FITID","FiTID","str","1"),
    L("CORRECTFITID","CorrectFiTID","str","?"),
    L("CORRECTACTION","CorrectAction","CorrectAction","?"),
    L("SRVRTID","SrvrTID","str","?"),
    L("CHECKNUM","CheckNum","str","?"),
    L("REFNUM","RefNum","str","?"),
    L("SIC","SIC","int","?"),
    L("PAYEEID","PayeeID","str","?"),
    L("NAME","Name","str","?"),
    AP("PAYEE","Payee","?","Payee"),
    L("EXTDNAME","ExtdName","str","?"),
    AP("BANKACCTTO","BankAcctTo","?","BankAcct"),
    AP("CCACCTTO","CCAcctTo","?","CCAcct"),
    L("MEMO","Memo","str","?"),
    A("IMAGEDATA","ImageData","*","ImageData"),
    AP("CURRENCY","Currency","?","Currency"),
    AP("ORIGCURRENCY","OrigCurrency","?","Currency"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?")>>,
  Payee |-> <<
    L("NAME","Name","str","1"),
    L("ADDR1","Addr1","str","1"),
    L("ADDR2","Addr2","str","?"),
    L("ADDR3","Addr3","str","?"),
    L("CITY","City","str","1"),
    L("STATE","State","str","1"),
    L("POSTALCODE","PostalCode","str","1"),
    L("COUNTRY","Country","str","?"),
    L("PHONE","Phone","str","1")>>,
  CCAcct |-> <<
    L("ACCTID","AcctID","str","1"),
    L("ACCTKEY","AcctKey","str","?")>>,
  ImageData |-> <<
    L("IMAGETYPE","ImageType","ImageType","1"),
    L("IMAGEREF","ImageRef","str","1"),
    L("IMAGEREFTYPE","ImageRefType","ImageRefType","1"),
    L("IMAGEDELAY","ImageDelay","int","?"),
    LP("DTIMAGEAVAIL","DtImageAvail","date","?"),
    L("IMAGETTL","ImageTTL","int","?"),
    L("CHECKSUP","CheckSup","CheckSup","?")>>,
  Currency |-> <<
    L("CURRATE","CurRate","amt","1"),
    L("CURSYM","CurSym","cur","1")>>,
  PendingTransactionList |-> <<
    L("DTASOF","DtAsOf","date","1"),
    A("STMTTRNP","Transactions","*","PendingTransaction")>>,
  PendingTransaction |-> <<
    L("TRNTYPE","TrnType","TrnType","1"),
    L("DTTRAN","DtTran","date","1"),
    LP("DTEXPIRE","DtExpire","date","?"),
    L("TRNAMT","TrnAmt","amt","1"),
    L("REFNUM","RefNum","str","?"),
    L("NAME","Name","str","?"),
    L("EXTDNAME","ExtdName","str","?"),
    L("MEMO","Memo","str","?"),
    A("IMAGEDATA","ImageData","*","ImageData"),
    A("CURRENCY","Currency","?","Currency"),
    A("ORIGCURRENCY","OrigCurrency","?","Currency")>>,
  Balance |-> <<
    L("NAME","Name","str","1"),
    L("DESC","Desc","str","1"),
    L("BALTYPE","BalType","BalType","1"),
    L("VALUE","Value","amt","1"),
    LP("DTASOF","DtAsOf","date","?"),
    AP("CURRENCY","Currency","?","Currency")>>,
  CCStatementRequest |-> <<
    L("TRNUID","TrnUID","uid","1"),
    L("CLTCOOKIE","CltCookie","str","?"),
    L("TAN","TAN","str","?"),
    A("CCSTMTRQ","","?","CCStatementRequest_CCSTMTRQ")>>,
  CCStatementRequest_CCSTMTRQ |-> <<
    A("CCACCTFROM","CCAcctFrom","1","CCAcct"),
    A("INCTRAN","","?","CCStatementRequest_CCSTMTRQ_INCTRAN"),
    L("INCLUDEPENDING","IncludePending","bool","?"),
    L("INCTRANIMG","IncTranImg","bool","?")>>,
  CCStatementRequest_CCSTMTRQ_INCTRAN |-> <<
    LP("DTSTART","DtStart","date","?"),
    LP("DTEND","DtEnd","date","?"),
    L("INCLUDE","Include","bool","1")>>,
  CCStatementResponse |-> <<
    L("TRNUID","TrnUID","uid","1"),
    A("STATUS","Status","1","Status"),
    L("CLTCOOKIE","CltCookie","str","?"),
    A("CCSTMTRS","","?","CCStatementResponse_CCSTMTRS")>>,
  CCStatementResponse_CCSTMTRS |-> <<
    L("CURDEF","CurDef","cur","1"),
    A("CCACCTFROM","CCAcctFrom","1","CCAcct"),
    AP("BANKTRANLIST","BankTranList","?","TransactionList"),
    A("LEDGERBAL","","?","CCStatementResponse_CCSTMTRS_LEDGERBAL"),
    A("AVAILBAL","","?","CCStatementResponse_CCSTMTRS_AVAILBAL"),
    L("CASHADVBALAMT","CashAdvBalAmt","amt","?"),
    L("INTRATEPURCH","IntRatePurch","amt","?"),
    L("INTRATECASH","IntRateCash","amt","?"),
    L("INTRATEXFER","IntRateXfer","amt","?"),
    A("REWARDINFO","","?","CCStatementResponse_CCSTMTRS_REWARDINFO"),
    A("BALLIST","","?","CCStatementResponse_CCSTMTRS_BALLIST"),
    L("MKTGINFO","MktgInfo","str","?")>>,
  CCStatementResponse_CCSTMTRS_LEDGERBAL |-> <<
    L("BALAMT","BalAmt","amt","1"),
    L("DTASOF","DtAsOf","date","1")>>,
  CCStatementResponse_CCSTMTRS_AVAILBAL |-> <<
    LP("BALAMT","AvailBalAmt","amt","?"),
    LP("DTASOF","AvailDtAsOf","date","?")>>,
  CCStatementResponse_CCSTMTRS_REWARDINFO |-> <<
    L("NAME","RewardName","str","?"),
    L("REWARDBAL","RewardBal","amt","?"),
    L("REWARDEARNED","RewardEarned","amt","?")>>,
  CCStatementResponse_CCSTMTRS_BALLIST |-> <<
    A("BAL","BalList","*","Balance")>>,
  InvStatementRequest |-> <<
    L("TRNUID","TrnUID","uid","1"),
    L("CLTCOOKIE","CltCookie","str","?"),
    L("TAN","TAN","str","?"),
    A("INVSTMTRQ","","?","InvStatementRequest_INVSTMTRQ")>>,
  InvStatementRequest_INVSTMTRQ |-> <<
    A("INVACCTFROM","InvAcctFrom","1","InvAcct"),
    A("INCTRAN","","?","InvStatementRequest_INVSTMTRQ_INCTRAN"),
    L("INCOO","IncludeOO","bool","1"),
    A("INCPOS","","?","InvStatementRequest_INVSTMTRQ_INCPOS"),
    L("INCBAL","IncludeBalance","bool","1"),
    L("INC401K","Include401K","bool","?"),
    L("INC401KBAL","Include401KBal","bool","?"),
    L("INCTRANIMAGE","IncludeTranImage","bool","?")>>,
  InvStatementRequest_INVSTMTRQ_INCTRAN |-> <<
    LP("DTSTART","DtStart","date","?"),
    LP("DTEND","DtEnd","date","?"),
    L("INCLUDE","Include","bool","1")>>,
  InvStatementRequest_INVSTMTRQ_INCPOS |-> <<
    LP("DTASOF","PosDtAsOf","date","?"),
    L("INCLUDE","IncludePos","bool","1")>>,
  InvAcct |-> <<
    L("BROKERID","BrokerID","str","1"),
    L("ACCTID","AcctID","str","1")>>,
  InvStatementResponse |-> <<
    L("TRNUID","TrnUID","uid","1"),
    A("STATUS","Status","1","Status"),
    L("CLTCOOKIE","CltCookie","str","?"),
    A("INVSTMTRS","","?","InvStatementResponse_INVSTMTRS")>>,
  InvStatementResponse_INVSTMTRS |-> <<
    L("DTASOF","DtAsOf","date","1"),
    L("CURDEF","CurDef","cur","1"),
    A("INVACCTFROM","InvAcctFrom","1","InvAcct"),
    AP("INVTRANLIST","InvTranList","?","InvTranList"),
    A("INVPOSLIST","InvPosList","?","PositionList"),
    AP("INVBAL","InvBal","?","InvBalance"),
    A("INVOOLIST","InvOOList","?","OOList"),
    L("MKTGINFO","MktgInfo","str","?"),
    AP("INV401K","Inv401K","?","Inv401K"),
    AP("INV401KBAL","Inv401KBal","?","Inv401KBal")>>,
  InvBankTransaction |-> <<
    A("STMTTRN","Transactions","*","Transaction"),
    L("SUBACCTFUND","SubAcctFund","SubAcctType","1")>>,
  InvBalance |-> <<
    L("AVAILCASH","AvailCash","amt","1"),
    L("MARGINBALANCE","MarginBalance","amt","1"),
    L("SHORTBALANCE","ShortBalance","amt","1"),
    L("BUYPOWER","BuyPower","amt","?"),
    A("BALLIST","","?","InvBalance_BALLIST")>>,
  InvBalance_BALLIST |-> <<
    A("BAL","BalList","*","Balance")>>,
  Inv401K |-> <<
    L("EMPLOYERNAME","EmployerName","str","1"),
    L("PLANID","PlanID","str","?"),
    LP("PLANJOINDATE","PlanJoinDate","date","?"),
    L("EMPLOYERCONTACTINFO","EmployerContactInfo","str","?"),
    L("BROKERCONTACTINFO","BrokerContactInfo","str","?"),
    L("DEFERPCTPRETAX","DeferPctPreTax","amt","?"),
    L("DEFERPCTAFTERTAX","DeferPctAfterTax","amt","?"),
    A("MATCHINFO","","?","Inv401K_MATCHINFO"),
    A("CONTRIBINFO","","?","Inv401K_CONTRIBINFO"),
    L("CURRENTVESTPCT","CurrentVestPct","amt","?"),
    A("VESTINFO","VestInfo","*","VestInfo"),
    A("LOANINFO","LoanInfo","*","LoanInfo"),
    A("INV401KSUMMARY","","?","Inv401K_INV401KSUMMARY")>>,
  Inv401K_MATCHINFO |-> <<
    L("MATCHPCT","MatchPct","amt","?"),
    L("MAXMATCHAMT","MaxMatchAmt","amt","?"),
    L("MAXMATCHPCT","MaxMatchPct","amt","?"),
    LP("STARTOFYEAR","StartOfYear","date","?"),
    L("BASEMATCHAMT","BaseMatchAmt","amt","1"),
    L("BASEMATCHPCT","BaseMatchPct","amt","1")>>,
  Inv401K_CONTRIBINFO |-> <<
    A("CONTRIBSECURITY","ContribInfo","*","ContribSecurity")>>,
  Inv401K_INV401KSUMMARY |-> <<
    A("YEARTODATE","YearToDateSummary","1","Inv401KSummaryPeriod"),
    AP("INCEPTODATE","InceptToDateSummary","?","Inv401KSummaryPeriod"),
    AP("PERIODTODATE","PeriodToDate","?","Inv401KSummaryPeriod")>>,
  ContribSecurity |-> <<
    A("SECID","SecID","1","SecurityID"),
    L("PRETAXCONTRIBPCT","PreTaxContribPct","amt","?"),
    L("PRETAXCONTRIBAMT","PreTaxContribAmt","amt","?"),
    L("AFTERTAXCONTRIBPCT","AfterTaxContribPct","amt","?"),
    L("AFTERTAXCONTRIBAMT","AfterTaxContribAmt","amt","?"),
    L("MATCHCONTRIBPCT","MatchContribPct","amt","?"),
    L("MATCHCONTRIBAMT","MatchContribAmt","amt","?"),
    L("PROFITSHARINGCONTRIBPCT","ProfitSharingContribPct","amt","?"),
    L("PROFITSHARINGCONTRIBAMT","ProfitSharingContribAmt","amt","?"),
    L("ROLLOVERCONTRIBPCT","RolloverContribPct","amt","?"),
    L("ROLLOVERCONTRIBAMT","RolloverContribAmt","amt","?"),
    L("OTHERVESTPCT","OtherVestPct","amt","?"),
    L("OTHERVESTAMT","OtherVestAmt","amt","?"),
    L("OTHERNONVESTPCT","OtherNonVestPct","amt","?"),
    L("OTHERNONVESTAMT","OtherNonVestAmt","amt","?")>>,
  SecurityID |-> <<
    L("UNIQUEID","UniqueID","str","1"),
    L("UNIQUEIDTYPE","UniqueIDType","str","1")>>,
  VestInfo |-> <<
    LP("VESTDATE","VestDate","date","?"),
    L("VESTPCT","VestPct","amt","1")>>,
  LoanInfo |-> <<
    L("LOANID","LoanID","str","1"),
    L("LOANDESC","LoanDesc","str","?"),
    L("INITIALLOANBAL","InitialLoanBal","amt","?"),
    LP("LOANSTARTDATE","LoanStartDate","date","?"),
    L("CURRENTLOANBAL","CurrentLoanBal","amt","1"),
    LP("DTASOF","DtAsOf","date","1"),
    L("LOANRATE","LoanRate","amt","?"),
    L("LOANPMTAMT","LoanPmtAmt","amt","?"),
    L("LOANPMTFREQ","LoanPmtFreq","LoanPmtFreq","?"),
    L("LOANPMTSINITIAL","LoanPmtsInitial","int","?"),
    L("LOANPMTSREMAINING","LoanPmtsRemaining","int","?"),
    LP("LOANMATURITYDATE","LoanMaturityDate","date","?"),
    L("LOANTOTALPROJINTEREST","LoanTotalProjInterest","amt","?"),
    L("LOANINTERESTTODATE","LoanInterestToDate","amt","?"),
    LP("LOANNEXTPMTDATE","LoanExtPmtDate","date","?")>>,
  Inv401KSummaryPeriod |-> <<
    L("DTSTART","DtStart","date","1"),
    L("DTEND","DtEnd","date","1"),
    AP("CONTRIBUTIONS","Contributions","?","Inv401KSummaryAggregate"),
    AP("WITHDRAWLS","Withdrawls","?","Inv401KSummaryAggregate"),
    AP("EARNINGS","Earnings","?","Inv401KSummaryAggregate")>>,
  Inv401KSummaryAggregate |-> <<
    L("PRETAX","PreTax","amt","?"),
    L("AFTERTAX","AfterTax","amt","?"),
    L("MATCH","Match","amt","?"),
    L("PROFITSHARING","ProfitSharing","amt","?"),
    L("ROLLOVER","Rollover","amt","?"),
    L("OTHERVEST","OtherVest","amt","?"),
    L("OTHERNONVEST","OtherNonVest","amt","?"),
    L("TOTAL","Total","amt","1")>>,
  Inv401KBal |-> <<
    L("CASHBAL","CashBal","amt","?"),
    L("PRETAX","PreTax","amt","?"),
    L("AFTERTAX","AfterTax","amt","?"),
    L("MATCH","Match","amt","?"),
    L("PROFITSHARING","ProfitSharing","amt","?"),
    L("ROLLOVER","Rollover","amt","?"),
    L("OTHERVEST","OtherVest","amt","?"),
    L("OTHERNONVEST","OtherNonVest","amt","?"),
    L("TOTAL","Total","amt","1"),
    A("BALLIST","","?","Inv401KBal_BALLIST")>>,
  Inv401KBal_BALLIST |-> <<
    A("BAL","BalList","*","Balance")>>,
  SecListRequest |-> <<
    L("TRNUID","TrnUID","uid","1"),
    L("CLTCOOKIE","CltCookie","str","?"),
    L("TAN","TAN","str","?"),
    A("SECLISTRQ","","?","SecListRequest_SECLISTRQ")>>,
  SecListRequest_SECLISTRQ |-> <<
    A("SECRQ","Securities","*","SecurityRequest")>>,
  SecurityRequest |-> <<
    AP("SECID","SecID","?","SecurityID"),
    L("TICKER","Ticker","str","?"),
    L("FIID","FiID","str","?")>>,
  SecListResponse |-> <<
    L("TRNUID","TrnUID","uid","1"),
    A("STATUS","Status","1","Status"),
    L("CLTCOOKIE","CltCookie","str","?")>>,
  AcctInfoRequest |-> <<
    L("TRNUID","TrnUID","uid","1"),
    L("CLTCOOKIE","CltCookie","str","?"),
    L("TAN","TAN","str","?"),
    A("ACCTINFORQ","","?","AcctInfoRequest_ACCTINFORQ")>>,
  AcctInfoRequest_ACCTINFORQ |-> <<
    L("DTACCTUP","DtAcctUp","date","1")>>,
  AcctInfoResponse |-> <<
    L("TRNUID","TrnUID","uid","1"),
    A("STATUS","Status","1","Status"),
    L("CLTCOOKIE","CltCookie","str","?"),
    A("ACCTINFORS","","?","AcctInfoResponse_ACCTINFORS")>>,
  AcctInfoResponse_ACCTINFORS |-> <<
    L("DTACCTUP","DtAcctUp","date","1"),
    A("ACCTINFO","AcctInfo","*","AcctInfo")>>,
  AcctInfo |-> <<
    L("NAME","Name","str","?"),
    L("DESC","Desc","str","?"),
    L("PHONE","Phone","str","?"),
    A("HOLDERINFO","","?","AcctInfo_HOLDERINFO"),
    AP("BANKACCTINFO","BankAcctInfo","?","BankAcctInfo"),
    AP("CCACCTINFO","CCAcctInfo","?","CCAcctInfo"),
    AP("INVACCTINFO","InvAcctInfo","?","InvAcctInfo")>>,
  AcctInfo_HOLDERINFO |-> <<
    A("PRIMARYHOLDER","PrimaryHolder","?","HolderInfo"),
    A("SECONDARYHOLDER","SecondaryHolder","?","HolderInfo")>>,
  HolderInfo |-> <<
    L("FIRSTNAME","FirstName","str","1"),
    L("MIDDLENAME","MiddleName","str","?"),
    L("LASTNAME","LastName","str","1"),
    L("ADDR1","Addr1","str","1"),
    L("ADDR2","Addr2","str","?"),
    L("ADDR3","Addr3","str","?"),
    L("CITY","City","str","1"),
    L("STATE","State","str","1"),
    L("POSTALCODE","PostalCode","str","1"),
    L("COUNTRY","Country","str","?"),
    L("DAYPHONE","DayPhone","str","?"),
    L("EVEPHONE","EvePhone","str","?"),
    L("EMAIL","Email","str","?"),
    L("HOLDERTYPE","HolderType","HolderType","?")>>,
  BankAcctInfo |-> <<
    A("BANKACCTFROM","BankAcctFrom","1","BankAcct"),
    L("SUPTXDL","SupTxDl","bool","1"),
    L("XFERSRC","XferSrc","bool","1"),
    L("XFERDEST","XferDest","bool","1"),
    L("MATURITYDATE","MaturityDate","date","?"),
    L("MATURITYAMOUNT","MaturityAmt","amt","?"),
    L("MINBALREQ","MinBalReq","amt","?"),
    L("ACCTCLASSIFICATION","AcctClassification","AcctClassification","?"),
    L("OVERDRAFTLIMIT","OverdraftLimit","amt","?"),
    L("SVCSTATUS","SvcStatus","SvcStatus","1")>>,
  CCAcctInfo |-> <<
    A("CCACCTFROM","CCAcctFrom","1","CCAcct"),
    L("SUPTXDL","SupTxDl","bool","1"),
    L("XFERSRC","XferSrc","bool","1"),
    L("XFERDEST","XferDest","bool","1"),
    L("ACCTCLASSIFICATION","AcctClassification","AcctClassification","?"),
    L("SVCSTATUS","SvcStatus","SvcStatus","1")>>,
  InvAcctInfo |-> <<
    A("INVACCTFROM","InvAcctFrom","1","InvAcct"),
    L("USPRODUCTTYPE","UsProductType","UsProductType","1"),
    L("CHECKING","Checking","bool","1"),
    L("SVCSTATUS","SvcStatus","SvcStatus","1"),
    L("INVACCTTYPE","InvAcctType","InvAcctType","?"),
    L("OPTIONLEVEL","OptionLevel","str","?")>>,
  ProfileRequest |-> <<
    L("TRNUID","TrnUID","uid","1"),
    L("CLTCOOKIE","CltCookie","str","?"),
    L("TAN","TAN","str","?"),
    A("PROFRQ","","?","ProfileRequest_PROFRQ")>>,
  ProfileRequest_PROFRQ |-> <<
    L("CLIENTROUTING","ClientRouting","str","1"),
    L("DTPROFUP","DtProfUp","date","1")>>,
  ProfileResponse |-> <<
    L("TRNUID","TrnUID","uid","1"),
    A("STATUS","Status","1","Status"),
    L("CLTCOOKIE","CltCookie","str","?"),
    A("PROFRS","","?","ProfileResponse_PROFRS")>>,
  ProfileResponse_PROFRS |-> <<
    A("MSGSETLIST","MessageSetList","1","MessageSetList"),
    A("SIGNONINFOLIST","","?","ProfileResponse_PROFRS_SIGNONINFOLIST"),
    L("DTPROFUP","DtProfUp","date","1"),
    L("FINAME","FiName","str","1"),
    L("ADDR1","Addr1","str","1"),
    L("ADDR2","Addr2","str","?"),
    L("ADDR3","Addr3","str","?"),
    L("CITY","City","str","1"),
    L("STATE","State","str","1"),
    L("POSTALCODE","PostalCode","str","1"),
    L("COUNTRY","Country","str","1"),
    L("CSPHONE","CsPhone","str","?"),
    L("TSPHONE","TsPhone","str","?"),
    L("FAXPHONE","FaxPhone","str","?"),
    L("URL","URL","str","?"),
    L("EMAIL","Email","str","?")>>,
  ProfileResponse_PROFRS_SIGNONINFOLIST |-> <<
    A("SIGNONINFO","SignonInfoList","*","SignonInfo")>>,
  SignonInfo |-> <<
    L("SIGNONREALM","SignonRealm","str","1"),
    L("MIN","Min","int","1"),
    L("MAX","Max","int","1"),
    L("CHARTYPE","CharType","CharType","1"),
    L("CASESEN","CaseSen","bool","1"),
    L("SPECIAL","Special","bool","1"),
    L("SPACES","Spaces","bool","1"),
    L("PINCH","PinCh","bool","1"),
    L("CHGPINFIRST","ChgPinFirst","bool","1"),
    L("USERCRED1LABEL","UserCred1Label","str","?"),
    L("USERCRED2LABEL","UserCred2Label","str","?"),
    L("CLIENTUIDREQ","ClientUIDReq","bool","?"),
    L("AUTHTOKENFIRST","AuthTokenFirst","bool","?"),
    L("AUTHTOKENLABEL","AuthTokenLabel","str","?"),
    L("AUTHTOKENINFOURL","AuthTokenInfoURL","str","?"),
    L("MFACHALLENGESUPT","MFAChallengeSupt","bool","?"),
    L("MFACHALLENGEFIRST","MFAChallengeFIRST","bool","?"),
    L("ACCESSTOKENREQ","AccessTokenReq","bool","?")>>,
  BuyDebt |-> <<
    A("INVBUY","InvBuy","1","InvBuy"),
    L("ACCRDINT","AccrdInt","amt","?")>>,
  InvBuy |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    A("SECID","SecID","1","SecurityID"),
    L("UNITS","Units","amt","1"),
    L("UNITPRICE","UnitPrice","amt","1"),
    L("MARKUP","Markup","amt","?"),
    L("COMMISSION","Commission","amt","?"),
    L("TAXES","Taxes","amt","?"),
    L("FEES","Fees","amt","?"),
    L("LOAD","Load","amt","?"),
    L("TOTAL","Total","amt","1"),
    A("CURRENCY","Currency","?","Currency"),
    A("ORIGCURRENCY","OrigCurrency","?","Currency"),
    L("SUBACCTSEC","SubAcctSec","SubAcctType","1"),
    L("SUBACCTFUND","SubAcctFund","SubAcctType","1"),
    L("LOANID","LoanID","str","?"),
    L("LOANPRINCIPAL","LoanPrincipal","amt","?"),
    L("LOANINTEREST","LoanInterest","amt","?"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?"),
    LP("DTPAYROLL","DtPayroll","date","?"),
    L("PRIORYEARCONTRIB","PriorYearContrib","bool","?")>>,
  InvTran |-> <<
    L("FITID","FiTID","str","1"),
    L("SRVRTID","SrvrTID","str","?"),
    L("DTTRADE","DtTrade","date","1"),
    LP("DTSETTLE","DtSettle","date","?"),
    L("REVERSALFITID","ReversalFiTID","str","?"),
    L("MEMO","Memo","str","?")>>,
  BuyMF |-> <<
    A("INVBUY","InvBuy","1","InvBuy"),
    L("BUYTYPE","BuyType","BuyType","1"),
    L("RELFITID","RelFiTID","str","?")>>,
  BuyOpt |-> <<
    A("INVBUY","InvBuy","1","InvBuy"),
    L("OPTBUYTYPE","OptBuyType","OptBuyType","1"),
    L("SHPERCTRCT","ShPerCtrct","int","1")>>,
  BuyOther |-> <<
    A("INVBUY","InvBuy","1","InvBuy")>>,
  BuyStock |-> <<
    A("INVBUY","InvBuy","1","InvBuy"),
    L("BUYTYPE","BuyType","BuyType","1")>>,
  ClosureOpt |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    A("SECID","SecID","1","SecurityID"),
    L("OPTACTION","OptAction","OptAction","1"),
    L("UNITS","Units","amt","1"),
    L("SHPERCTRCT","ShPerCtrct","int","1"),
    L("SUBACCTSEC","SubAcctSec","SubAcctType","1"),
    L("RELFITID","RelFiTID","str","?"),
    L("GAIN","Gain","amt","?")>>,
  Income |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    A("SECID","SecID","1","SecurityID"),
    L("INCOMETYPE","IncomeType","IncomeType","1"),
    L("TOTAL","Total","amt","1"),
    L("SUBACCTSEC","SubAcctSec","SubAcctType","1"),
    L("SUBACCTFUND","SubAcctFund","SubAcctType","1"),
    L("TAXEXEMPT","TaxExempt","bool","?"),
    L("WITHHOLDING","Withholding","amt","?"),
    A("CURRENCY","Currency","?","Currency"),
    A("ORIGCURRENCY","OrigCurrency","?","Currency"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?")>>,
  InvExpense |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    A("SECID","SecID","1","SecurityID"),
    L("TOTAL","Total","amt","1"),
    L("SUBACCTSEC","SubAcctSec","SubAcctType","1"),
    L("SUBACCTFUND","SubAcctFund","SubAcctType","1"),
    A("CURRENCY","Currency","?","Currency"),
    A("ORIGCURRENCY","OrigCurrency","?","Currency"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?")>>,
  JrnlFund |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    L("TOTAL","Total","amt","1"),
    L("SUBACCTFROM","SubAcctFrom","SubAcctType","1"),
    L("SUBACCTTO","SubAcctTo","SubAcctType","1")>>,
  JrnlSec |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    A("SECID","SecID","1","SecurityID"),
    L("SUBACCTFROM","SubAcctFrom","SubAcctType","1"),
    L("SUBACCTTO","SubAcctTo","SubAcctType","1"),
    L("UNITS","Units","amt","1")>>,
  MarginInterest |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    L("TOTAL","Total","amt","1"),
    L("SUBACCTFUND","SubAcctFund","SubAcctType","1"),
    A("CURRENCY","Currency","?","Currency"),
    A("ORIGCURRENCY","OrigCurrency","?","Currency")>>,
  Reinvest |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    A("SECID","SecID","1","SecurityID"),
    L("INCOMETYPE","IncomeType","IncomeType","1"),
    L("TOTAL","Total","amt","1"),
    L("SUBACCTSEC","SubAcctSec","SubAcctType","1"),
    L("UNITS","Units","amt","1"),
    L("UNITPRICE","UnitPrice","amt","1"),
    L("COMMISSION","Commission","amt","?"),
    L("TAXES","Taxes","amt","?"),
    L("FEES","Fees","amt","?"),
    L("LOAD","Load","amt","?"),
    L("TAXEXEMPT","TaxExempt","bool","?"),
    A("CURRENCY","Currency","?","Currency"),
    A("ORIGCURRENCY","OrigCurrency","?","Currency"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?")>>,
  RetOfCap |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    A("SECID","SecID","1","SecurityID"),
    L("TOTAL","Total","amt","1"),
    L("SUBACCTSEC","SubAcctSec","SubAcctType","1"),
    L("SUBACCTFUND","SubAcctFund","SubAcctType","1"),
    A("CURRENCY","Currency","?","Currency"),
    A("ORIGCURRENCY","OrigCurrency","?","Currency"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?")>>,
  SellDebt |-> <<
    A("INVSELL","InvSell","1","InvSell"),
    L("SELLREASON","SellReason","SellReason","1"),
    L("ACCRDINT","AccrdInt","amt","?")>>,
  InvSell |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    A("SECID","SecID","1","SecurityID"),
    L("UNITS","Units","amt","1"),
    L("UNITPRICE","UnitPrice","amt","1"),
    L("MARKDOWN","Markdown","amt","?"),
    L("COMMISSION","Commission","amt","?"),
    L("TAXES","Taxes","amt","?"),
    L("FEES","Fees","amt","?"),
    L("LOAD","Load","amt","?"),
    L("WITHHOLDING","Withholding","amt","?"),
    L("TAXEXEMPT","TaxExempt","bool","?"),
    L("TOTAL","Total","amt","1"),
    L("GAIN","Gain","amt","?"),
    A("CURRENCY","Currency","?","Currency"),
    A("ORIGCURRENCY","OrigCurrency","?","Currency"),
    L("SUBACCTSEC","SubAcctSec","SubAcctType","1"),
    L("SUBACCTFUND","SubAcctFund","SubAcctType","1"),
    L("LOANID","LoanID","str","?"),
    L("STATEWITHHOLDING","StateWithholding","amt","?"),
    L("PENALTY","Penalty","amt","?"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?")>>,
  SellMF |-> <<
    A("INVSELL","InvSell","1","InvSell"),
    L("SELLTYPE","SellType","SellType","1"),
    L("AVGCOSTBASIS","AvgCostBasis","amt","1"),
    L("RELFITID","RelFiTID","str","?")>>,
  SellOpt |-> <<
    A("INVSELL","InvSell","1","InvSell"),
    L("OPTSELLTYPE","OptSellType","OptSellType","1"),
    L("SHPERCTRCT","ShPerCtrct","int","1"),
    L("RELFITID","RelFiTID","str","?"),
    L("RELTYPE","RelType","RelType","?"),
    L("SECURED","Secured","Secured","?")>>,
  SellOther |-> <<
    A("INVSELL","InvSell","1","InvSell")>>,
  SellStock |-> <<
    A("INVSELL","InvSell","1","InvSell"),
    L("SELLTYPE","SellType","SellType","1")>>,
  Split |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    A("SECID","SecID","1","SecurityID"),
    L("SUBACCTSEC","SubAcctSec","SubAcctType","1"),
    L("OLDUNITS","OldUnits","amt","1"),
    L("NEWUNITS","NewUnits","amt","1"),
    L("NUMERATOR","Numerator","int","1"),
    L("DENOMINATOR","Denominator","int","1"),
    A("CURRENCY","Currency","?","Currency"),
    A("ORIGCURRENCY","OrigCurrency","?","Currency"),
    L("FRACCASH","FracCash","amt","?"),
    L("SUBACCTFUND","SubAcctFund","SubAcctType","?"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?")>>,
  Transfer |-> <<
    A("INVTRAN","InvTran","1","InvTran"),
    A("SECID","SecID","1","SecurityID"),
    L("SUBACCTSEC","SubAcctSec","SubAcctType","1"),
    L("UNITS","Units","amt","1"),
    L("TFERACTION","TferAction","TferAction","1"),
    L("POSTYPE","PosType","PosType","1"),
    A("INVACCTFROM","InvAcctFrom","?","InvAcct"),
    L("AVGCOSTBASIS","AvgCostBasis","amt","?"),
    L("UNITPRICE","UnitPrice","amt","?"),
    LP("DTPURCHASE","DtPurchase","date","?"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?")>>,
  DebtPosition |-> <<
    A("INVPOS","InvPos","1","InvPosition")>>,
  InvPosition |-> <<
    A("SECID","SecID","1","SecurityID"),
    L("HELDINACCT","HeldInAcct","SubAcctType","1"),
    L("POSTYPE","PosType","PosType","1"),
    L("UNITS","Units","amt","1"),
    L("UNITPRICE","UnitPrice","amt","1"),
    L("MKTVAL","MktVal","amt","1"),
    L("AVGCOSTBASIS","AvgCostBasis","amt","?"),
    L("DTPRICEASOF","DtPriceAsOf","date","1"),
    AP("CURRENCY","Currency","?","Currency"),
    L("MEMO","Memo","str","?"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?")>>,
  MFPosition |-> <<
    A("INVPOS","InvPos","1","InvPosition"),
    L("UNITSSTREET","UnitsStreet","amt","?"),
    L("UNITSUSER","UnitsUser","amt","?"),
    L("REINVDIV","ReinvDiv","bool","?"),
    L("REINVCG","ReinvCG","bool","?")>>,
  OptPosition |-> <<
    A("INVPOS","InvPos","1","InvPosition"),
    L("SECURED","Secured","Secured","?")>>,
  OtherPosition |-> <<
    A("INVPOS","InvPos","1","InvPosition")>>,
  StockPosition |-> <<
    A("INVPOS","InvPos","1","InvPosition"),
    L("UNITSSTREET","UnitsStreet","amt","?"),
    L("UNITSUSER","UnitsUser","amt","?"),
    L("REINVDIV","ReinvDiv","bool","?")>>,
  OOBuyDebt |-> <<
    A("OO","OO","1","OO"),
    L("AUCTION","Auction","bool","1"),
    LP("DTAUCTION","DtAuction","date","?")>>,
  OO |-> <<
    L("FITID","FiTID","str","1"),
    L("SRVRTID","SrvrTID","str","?"),
    A("SECID","SecID","1","SecurityID"),
    L("DTPLACED","DtPlaced","date","1"),
    L("UNITS","Units","amt","1"),
    L("SUBACCT","SubAcct","SubAcctType","1"),
    L("DURATION","Duration","Duration","1"),
    L("RESTRICTION","Restriction","Restriction","1"),
    L("MINUNITS","MinUnits","amt","?"),
    L("LIMITPRICE","LimitPrice","amt","?"),
    L("STOPPRICE","StopPrice","amt","?"),
    L("MEMO","Memo","str","?"),
    AP("CURRENCY","Currency","?","Currency"),
    L("INV401KSOURCE","Inv401kSource","Inv401kSource","?")>>,
  OOBuyMF |-> <<
    A("OO","OO","1","OO"),
    L("BUYTYPE","BuyType","BuyType","1"),
    L("UNITTYPE","UnitType","UnitType","1")>>,
  OOBuyOpt |-> <<
    A("OO","OO","1","OO"),
    L("OPTBUYTYPE","OptBuyType","OptBuyType","1")>>,
  OOBuyOther |-> <<
    A("OO","OO","1","OO"),
    L("UNITTYPE","UnitType","UnitType","1")>>,
  OOBuyStock |-> <<
    A("OO","OO","1","OO"),
    L("BUYTYPE","BuyType","BuyType","1")>>,
  OOSellDebt |-> <<
    A("OO","OO","1","OO")>>,
  OOSellMF |-> <<
    A("OO","OO","1","OO"),
    L("SELLTYPE","SellType","SellType","1"),
    L("UNITTYPE","UnitType","UnitType","1"),
    L("SELLALL","SellAll","bool","1")>>,
  OOSellOpt |-> <<
    A("OO","OO","1","OO"),
    L("OPTSELLTYPE","OptSellType","OptSellType","1")>>,
  OOSellOther |-> <<
    A("OO","OO","1","OO"),
    L("UNITTYPE","UnitType","UnitType","1")>>,
  OOSellStock |-> <<
    A("OO","OO","1","OO"),
    L("SELLTYPE","SellType","SellType","1")>>,
  OOSwitchMF |-> <<
    A("OO","OO","1","OO"),
    A("SECID","SecID","1","SecurityID"),
    L("UNITTYPE","UnitType","UnitType","1"),
    L("SWITCHALL","SwitchAll","bool","1")>>,
  DebtInfo |-> <<
    A("SECINFO","SecInfo","1","SecInfo"),
    L("PARVALUE","ParValue","amt","1"),
    L("DEBTTYPE","DebtType","DebtType","1"),
    L("DEBTCLASS","DebtClass","DebtClass","?"),
    L("COUPONRT","CouponRate","amt","?"),
    LP("DTCOUPON","DtCoupon","date","?"),
    L("COUPONFREQ","CouponFreq","CouponFreq","?"),
    L("CALLPRICE","CallPrice","amt","?"),
    L("YIELDTOCALL","YieldToCall","amt","?"),
    LP("DTCALL","DtCall","date","?"),
    L("CALLTYPE","CallType","CallType","?"),
    L("YIELDTOMAT","YieldToMat","amt","?"),
    LP("DTMAT","DtMat","date","?"),
    L("ASSETCLASS","AssetClass","AssetClass","?"),
    L("FIASSETCLASS","FiAssetClass","str","?")>>,
  SecInfo |-> <<
    A("SECID","SecID","1","SecurityID"),
    L("SECNAME","SecName","str","1"),
    L("TICKER","Ticker","str","?"),
    L("FIID","FiID","str","?"),
    L("RATING","Rating","str","?"),
    L("UNITPRICE","UnitPrice","amt","?"),
    LP("DTASOF","DtAsOf","date","?"),
    AP("CURRENCY","Currency","?","Currency"),
    L("MEMO","Memo","str","?")>>,
  MFInfo |-> <<
    A("SECINFO","SecInfo","1","SecInfo"),
    L("MFTYPE","MfType","MfType","1"),
    L("YIELD","Yield","amt","?"),
    LP("DTYIELDASOF","DtYieldAsOf","date","?"),
    A("MFASSETCLASS","","?","MFInfo_MFASSETCLASS"),
    A("FIMFASSETCLASS","","?","MFInfo_FIMFASSETCLASS")>>,
  MFInfo_MFASSETCLASS |-> <<
    A("PORTION","AssetClasses","*","AssetPortion")>>,
  MFInfo_FIMFASSETCLASS |-> <<
    A("FIPORTION","FiAssetClasses","*","FiAssetPortion")>>,
  AssetPortion |-> <<
    L("ASSETCLASS","AssetClass","AssetClass","1"),
    L("PERCENT","Percent","amt","1")>>,
  FiAssetPortion |-> <<
    L("FIASSETCLASS","FiAssetClass","str","?"),
    L("PERCENT","Percent","amt","1")>>,
  OptInfo |-> <<
    A("SECINFO","SecInfo","1","SecInfo"),
    L("OPTTYPE","OptType","OptType","1"),
    L("STRIKEPRICE","StrikePrice","amt","1"),
    L("DTEXPIRE","DtExpire","date","1"),
    L("SHPERCTRCT","ShPerCtrct","int","1"),
    AP("SECID","SecID","?","SecurityID"),
    L("ASSETCLASS","AssetClass","AssetClass","?"),
    L("FIASSETCLASS","FiAssetClass","str","?")>>,
  OtherInfo |-> <<
    A("SECINFO","SecInfo","1","SecInfo"),
    L("TYPEDESC","TypeDesc","str","?"),
    L("ASSETCLASS","AssetClass","AssetClass","?"),
    L("FIASSETCLASS","FiAssetClass","str","?")>>,
  StockInfo |-> <<
    A("SECINFO","SecInfo","1","SecInfo"),
    L("STOCKTYPE","StockType","StockType","?"),
    L("YIELD","Yield","amt","?"),
    LP("DTYIELDASOF","DtYieldAsOf","date","?"),
    L("ASSETCLASS","AssetClass","AssetClass","?"),
    L("FIASSETCLASS","FiAssetClass","str","?")>>,
  InvTranList |-> <<
    L("DTSTART","DtStart","date","1"),
    L("DTEND","DtEnd","date","1"),
    MX("InvTranList")>>,
  PositionList |-> <<
    MX("PositionList")>>,
  OOList |-> <<
    MX("OOList")>>,
  SecurityList |-> <<
    MX("SecurityList")>>,
  MessageSetList |-> <<
    MX("MessageSetList")>>,
  MessageSet_MSGSETCORE |-> <<
    L("VER","Ver","int","1"),
    L("URL","URL","str","1"),
    L("OFXSEC","OfxSec","OfxSec","1"),
    L("TRANSPSEC","TranspSec","bool","1"),
    L("SIGNONREALM","SignonRealm","str","1"),
    L("LANGUAGE","Language","str","*"),
    L("SYNCMODE","SyncMode","SyncMode","1"),
    L("REFRESHSUPT","RefreshSupt","bool","?"),
    L("RESPFILEER","RespFileER","bool","1"),
    L("SPNAME","SpName","str","1")>>,
  MessageSet |-> <<
    A("MSGSETCORE","","1","MessageSet_MSGSETCORE")>>,
  MsgSet_SIGNON |-> <<
    A("SIGNONMSGSETV1","","1","MessageSet")>>,
  MsgSet_SIGNUP |-> <<
    A("SIGNUPMSGSETV1","","1","MessageSet")>>,
  MsgSet_BANK |-> <<
    A("BANKMSGSETV1","","1","MessageSet")>>,
  MsgSet_CREDITCARD |-> <<
    A("CREDITCARDMSGSETV1","","1","MessageSet")>>,
  MsgSet_INVSTMT |-> <<
    A("INVSTMTMSGSETV1","","1","MessageSet")>>,
  MsgSet_SECLIST |-> <<
    A("SECLISTMSGSETV1","","1","MessageSet")>>,
  MsgSet_PROF |-> <<
    A("PROFMSGSETV1","","1","MessageSet")>>,
  MsgSet_EMAIL |-> <<
    A("EMAILMSGSETV1","","1","MessageSet")>>
]

\* Lists of alternatives: one list entry per child, of Go type ty, in list field f of the enclosing object.
Mix == [
  InvTranList |-> <<
    [t |-> "BUYDEBT", f |-> "InvTransactions", a |-> "BuyDebt", ty |-> "BuyDebt"],
    [t |-> "BUYMF", f |-> "InvTransactions", a |-> "BuyMF", ty |-> "BuyMF"],
    [t |-> "BUYOPT", f |-> "InvTransactions", a |-> "BuyOpt", ty |-> "BuyOpt"],
    [t |-> "BUYOTHER", f |-> "InvTransactions", a |-> "BuyOther", ty |-> "BuyOther"],
    [t |-> "BUYSTOCK", f |-> "InvTransactions", a |-> "BuyStock", ty |-> "BuyStock"],
    [t |-> "CLOSUREOPT", f |-> "InvTransactions", a |-> "ClosureOpt", ty |-> "ClosureOpt"],
    [t |-> "INCOME", f |-> "InvTransactions", a |-> "Income", ty |-> "Income"],
    [t |-> "INVEXPENSE", f |-> "InvTransactions", a |-> "InvExpense", ty |-> "InvExpense"],
    [t |-> "JRNLFUND", f |-> "InvTransactions", a |-> "JrnlFund", ty |-> "JrnlFund"],
    [t |-> "JRNLSEC", f |-> "InvTransactions", a |-> "JrnlSec", ty |-> "JrnlSec"],
    [t |-> "MARGININTEREST", f |-> "InvTransactions", a |-> "MarginInterest", ty |-> "MarginInterest"],
    [t |-> "REINVEST", f |-> "InvTransactions", a |-> "Reinvest", ty |-> "Reinvest"],
    [t |-> "RETOFCAP", f |-> "InvTransactions", a |-> "RetOfCap", ty |-> "RetOfCap"],
    [t |-> "SELLDEBT", f |-> "InvTransactions", a |-> "SellDebt", ty |-> "SellDebt"],
    [t |-> "SELLMF", f |-> "InvTransactions", a |-> "SellMF", ty |-> "SellMF"],
    [t |-> "SELLOPT", f |-> "InvTransactions", a |-> "SellOpt", ty |-> "SellOpt"],
    [t |-> "SELLOTHER", f |-> "InvTransactions", a |-> "SellOther", ty |-> "SellOther"],
    [t |-> "SELLSTOCK", f |-> "InvTransactions", a |-> "SellStock", ty |-> "SellStock"],
    [t |-> "SPLIT", f |-> "InvTransactions", a |-> "Split", ty |-> "Split"],
    [t |-> "TRANSFER", f |-> "InvTransactions", a |-> "Transfer", ty |-> "Transfer"],
    [t |-> "INVBANKTRAN", f |-> "BankTransactions", a |-> "InvBankTransaction", ty |-> ""]>>,
  PositionList |-> <<
    [t |-> "POSDEBT", f |-> "", a |-> "DebtPosition", ty |-> "DebtPosition"],
    [t |-> "POSMF", f |-> "", a |-> "MFPosition", ty |-> "MFPosition"],
    [t |-> "POSOPT", f |-> "", a |-> "OptPosition", ty |-> "OptPosition"],
    [t |-> "POSOTHER", f |-> "", a |-> "OtherPosition", ty |-> "OtherPosition"],
    [t |-> "POSSTOCK", f |-> "", a |-> "StockPosition", ty |-> "StockPosition"]>>,
  OOList |-> <<
    [t |-> "OOBUYDEBT", f |-> "", a |-> "OOBuyDebt", ty |-> "OOBuyDebt"],
    [t |-> "OOBUYMF", f |-> "", a |-> "OOBuyMF", ty |-> "OOBuyMF"],
    [t |-> "OOBUYOPT", f |-> "", a |-> "OOBuyOpt", ty |-> "OOBuyOpt"],
    [t |-> "OOBUYOTHER", f |-> "", a |-> "OOBuyOther", ty |-> "OOBuyOther"],
    [t |-> "OOBUYSTOCK", f |-> "", a |-> "OOBuyStock", ty |-> "OOBuyStock"],
    [t |-> "OOSELLDEBT", f |-> "", a |-> "OOSellDebt", ty |-> "OOSellDebt"],
    [t |-> "OOSELLMF", f |-> "", a |-> "OOSellMF", ty |-> "OOSellMF"],
    [t |-> "OOSELLOPT", f |-> "", a |-> "OOSellOpt", ty |-> "OOSellOpt"],
    [t |-> "OOSELLOTHER", f |-> "", a |-> "OOSellOther", ty |-> "OOSellOther"],
    [t |-> "OOSELLSTOCK", f |-> "", a |-> "OOSellStock", ty |-> "OOSellStock"],
    [t |-> "SWITCHMF", f |-> "", a |-> "OOSwitchMF", ty |-> "OOSwitchMF"]>>,
  SecurityList |-> <<
    [t |-> "DEBTINFO", f |-> "Securities", a |-> "DebtInfo", ty |-> "DebtInfo"],
    [t |-> "MFINFO", f |-> "Securities", a |-> "MFInfo", ty |-> "MFInfo"],
    [t |-> "OPTINFO", f |-> "Securities", a |-> "OptInfo", ty |-> "OptInfo"],
    [t |-> "OTHERINFO", f |-> "Securities", a |-> "OtherInfo", ty |-> "OtherInfo"],
    [t |-> "STOCKINFO", f |-> "Securities", a |-> "StockInfo", ty |-> "StockInfo"]>>,
  MessageSetList |-> <<
    [t |-> "SIGNONMSGSET", f |-> "", a |-> "MsgSet_SIGNON", ty |-> ""],
    [t |-> "SIGNUPMSGSET", f |-> "", a |-> "MsgSet_SIGNUP", ty |-> ""],
    [t |-> "BANKMSGSET", f |-> "", a |-> "MsgSet_BANK", ty |-> ""],
    [t |-> "CREDITCARDMSGSET", f |-> "", a |-> "MsgSet_CREDITCARD", ty |-> ""],
    [t |-> "INVSTMTMSGSET", f |-> "", a |-> "MsgSet_INVSTMT", ty |-> ""],
    [t |-> "SECLISTMSGSET", f |-> "", a |-> "MsgSet_SECLIST", ty |-> ""],
    [t |-> "PROFMSGSET", f |-> "", a |-> "MsgSet_PROF", ty |-> ""],
    [t |-> "EMAILMSGSET", f |-> "", a |-> "MsgSet_EMAIL", ty |-> ""]>>
]

\* Message sets of a response in the order OFX prescribes, the slot of the Response each fills,
\* and the messages each may hold (tag, aggregate).
RsSets == <<
  [set |-> "SIGNUPMSGSRSV1", slot |-> "Signup", msgs |-> <<[t |-> "ACCTINFOTRNRS", a |-> "AcctInfoResponse"]>>],
  [set |-> "BANKMSGSRSV1", slot |-> "Bank", msgs |-> <<[t |-> "STMTTRNRS", a |-> "StatementResponse"]>>],
  [set |-> "CREDITCARDMSGSRSV1", slot |-> "CreditCard", msgs |-> <<[t |-> "CCSTMTTRNRS", a |-> "CCStatementResponse"]>>],
  [set |-> "LOANMSGSRSV1", slot |-> "Loan", msgs |-> <<>>],
  [set |-> "INVSTMTMSGSRSV1", slot |-> "InvStmt", msgs |-> <<[t |-> "INVSTMTTRNRS", a |-> "InvStatementResponse"]>>],
  [set |-> "INTERXFERMSGSRSV1", slot |-> "InterXfer", msgs |-> <<>>],
  [set |-> "WIREXFERMSGSRSV1", slot |-> "WireXfer", msgs |-> <<>>],
  [set |-> "BILLPAYMSGSRSV1", slot |-> "Billpay", msgs |-> <<>>],
  [set |-> "EMAILMSGSRSV1", slot |-> "Email", msgs |-> <<>>],
  [set |-> "SECLISTMSGSRSV1", slot |-> "SecList", msgs |-> <<[t |-> "SECLISTTRNRS", a |-> "SecListResponse"], [t |-> "SECLIST", a |-> "SecurityList"]>>],
  [set |-> "PRESDIRMSGSRSV1", slot |-> "PresDir", msgs |-> <<>>],
  [set |-> "PRESDLVMSGSRSV1", slot |-> "PresDlv", msgs |-> <<>>],
  [set |-> "PROFMSGSRSV1", slot |-> "Prof", msgs |-> <<[t |-> "PROFTRNRS", a |-> "ProfileResponse"]>>],
  [set |-> "IMAGEMSGSRSV1", slot |-> "Image", msgs |-> <<>>]
>>
\* The same for requests.
RqSets == <<
  [set |-> "SIGNUPMSGSRQV1", slot |-> "Signup", msgs |-> <<[t |-> "ACCTINFOTRNRQ", a |-> "AcctInfoRequest"]>>],
  [set |-> "BANKMSGSRQV1", slot |-> "Bank", msgs |-> <<[t |-> "STMTTRNRQ", a |-> "StatementRequest"]>>],
  [set |-> "CREDITCARDMSGSRQV1", slot |-> "CreditCard", msgs |-> <<[t |-> "CCSTMTTRNRQ", a |-> "CCStatementRequest"]>>],
  [set |-> "LOANMSGSRQV1", slot |-> "Loan", msgs |-> <<>>],
  [set |-> "INVSTMTMSGSRQV1", slot |-> "InvStmt", msgs |-> <<[t |-> "INVSTMTTRNRQ", a |-> "InvStatementRequest"]>>],
  [set |-> "INTERXFERMSGSRQV1", slot |-> "InterXfer", msgs |-> <<>>],
  [set |-> "WIREXFERMSGSRQV1", slot |-> "WireXfer", msgs |-> <<>>],
  [set |-> "BILLPAYMSGSRQV1", slot |-> "Billpay", msgs |-> <<>>],
  [set |-> "EMAILMSGSRQV1", slot |-> "Email", msgs |-> <<>>],
  [set |-> "SECLISTMSGSRQV1", slot |-> "SecList", msgs |-> <<[t |-> "SECLISTTRNRQ", a |-> "SecListRequest"]>>],
  [set |-> "PRESDIRMSGSRQV1", slot |-> "PresDir", msgs |-> <<>>],
  [set |-> "PRESDLVMSGSRQV1", slot |-> "PresDlv", msgs |-> <<>>],
  [set |-> "PROFMSGSRQV1", slot |-> "Prof", msgs |-> <<[t |-> "PROFTRNRQ", a |-> "ProfileRequest"]>>],
  [set |-> "IMAGEMSGSRQV1", slot |-> "Image", msgs |-> <<>>]
>>
=============================================================================
