------------------------------ MODULE OfxEnums ------------------------------
(***************************************************************************)
(* The enumerated OFX types: for each, its legal wire names, in the order   *)
(* of the documented constants.  EnumConst names the API constant that      *)
(* stands for the wire name in the same position.                           *)
(***************************************************************************)
EXTENDS OfxText

EnumNames == [
  OfxVersion |-> <<"102", "103", "151", "160", "200", "201", "202", "203", "210", "211", "220">>,
  AcctType |-> <<"CHECKING", "SAVINGS", "MONEYMRKT", "CREDITLINE", "CD">>,
  TrnType |-> <<"CREDIT", "DEBIT", "INT", "DIV", "FEE", "SRVCHG", "DEP", "ATM", "POS", "XFER", "CHECK", "PAYMENT", "CASH", "DIRECTDEP", "DIRECTDEBIT", "REPEATPMT", "HOLD", "OTHER">>,
  ImageType |-> <<"STATEMENT", "TRANSACTION", "TAX">>,
  ImageRefType |-> <<"OPAQUE", "URL", "FORMURL">>,
  CheckSup |-> <<"FRONTONLY", "BACKONLY", "FRONTANDBACK">>,
  CorrectAction |-> <<"DELETE", "REPLACE">>,
  BalType |-> <<"DOLLAR", "PERCENT", "NUMBER">>,
  Inv401kSource |-> <<"PRETAX", "AFTERTAX", "MATCH", "PROFITSHARING", "ROLLOVER", "OTHERVEST", "OTHERNONVEST">>,
  SubAcctType |-> <<"CASH", "MARGIN", "SHORT", "OTHER">>,
  BuyType |-> <<"BUY", "BUYTOCOVER">>,
  OptAction |-> <<"EXERCISE", "ASSIGN", "EXPIRE">>,
  TferAction |-> <<"IN", "OUT">>,
  PosType |-> <<"LONG", "SHORT">>,
  Secured |-> <<"NAKED", "COVERED">>,
  Duration |-> <<"DAY", "GOODTILCANCEL", "IMMEDIATE">>,
  Restriction |-> <<"ALLORNONE", "MINUNITS", "NONE">>,
  UnitType |-> <<"SHARES", "CURRENCY">>,
  OptBuyType |-> <<"BUYTOOPEN", "BUYTOCLOSE">>,
  SellType |-> <<"SELL", "SELLSHORT">>,
  LoanPmtFreq |-> <<"WEEKLY", "BIWEEKLY", "TWICEMONTHLY", "MONTHLY", "FOURWEEKS", "BIMONTHLY", "QUARTERLY", "SEMIANNUALLY", "ANNUALLY", "OTHER">>,
  IncomeType |-> <<"CGLONG", "CGSHORT", "DIV", "INTEREST", "MISC">>,
  SellReason |-> <<"CALL", "SELL", "MATURITY">>,
  OptSellType |-> <<"SELLTOCLOSE", "SELLTOOPEN">>,
  RelType |-> <<"SPREAD", "STRADDLE", "NONE", "OTHER">>,
  CharType |-> <<"ALPHAONLY", "NUMERICONLY", "ALPHAORNUMERIC", "ALPHAANDNUMERIC">>,
  SyncMode |-> <<"FULL", "LITE">>,
  OfxSec |-> <<"NONE", "TYPE 1">>,
  DebtType |-> <<"COUPON", "ZERO">>,
  DebtClass |-> <<"TREASURY", "MUNICIPAL", "CORPORATE", "OTHER">>,
  CouponFreq |-> <<"MONTHLY", "QUARTERLY", "SEMIANNUAL", "ANNUAL", "OTHER">>,
  CallType |-> <<"CALL", "PUT", "PREFUND", "MATURITY">>,
  AssetClass |-> <<"DOMESTICBOND", "INTLBOND", "LARGESTOCK", "SMALLSTOCK", "INTLSTOCK", "MONEYMRKT", "OTHER">>,
  MfType |-> <<"OPENEND", "CLOSEEND", "OTHER">>,
  OptType |-> <<"PUT", "CALL">>,
  StockType |-> <<"COMMON", "PREFERRED", "CONVERTIBLE", "OTHER">>,
  HolderType |-> <<"INDIVIDUAL", "JOINT", "CUSTODIAL", "TRUST", "OTHER">>,
  AcctClassification |-> <<"PERSONAL", "BUSINESS", "CORPORATE", "OTHER">>,
  SvcStatus |-> <<"AVAIL", "PEND", "ACTIVE">>,
  UsProductType |-> <<"401K", "403B", "IRA", "KEOGH", "OTHER", "SARSEP", "SIMPLE", "NORMAL", "TDA", "TRUST", "UGMA">>
]

EnumConst == [
  OfxVersion |-> <<"OfxVersion102", "OfxVersion103", "OfxVersion151", "OfxVersion160", "OfxVersion200", "OfxVersion201", "OfxVersion202", "OfxVersion203", "OfxVersion210", "OfxVersion211", "OfxVersion220">>,
  AcctType |-> <<"AcctTypeChecking", "AcctTypeSavings", "AcctTypeMoneyMrkt", "AcctTypeCreditLine", "AcctTypeCD">>,
  TrnType |-> <<"TrnTypeCredit", "TrnTypeDebit", "TrnTypeInt", "TrnTypeDiv", "TrnTypeFee", "TrnTypeSrvChg", "TrnTypeDep", "TrnTypeATM", "TrnTypePOS", "TrnTypeXfer", "TrnTypeCheck", "TrnTypePayment", "TrnTypeCash", "TrnTypeDirectDep", "TrnTypeDirectDebit", "TrnTypeRepeatPmt", "TrnTypeHold", "TrnTypeOther">>,
  ImageType |-> <<"ImageTypeStatement", "ImageTypeTransaction", "ImageTypeTax">>,
  ImageRefType |-> <<"ImageRefTypeOpaque", "ImageRefTypeURL", "ImageRefTypeFormURL">>,
  CheckSup |-> <<"CheckSupFrontOnly", "CheckSupBackOnly", "CheckSupFrontAndBack">>,
  CorrectAction |-> <<"CorrectActionDelete", "CorrectActionReplace">>,
  BalType |-> <<"BalTypeDollar", "BalTypePercent", "BalTypeNumber">>,
  Inv401kSource |-> <<"Inv401kSourcePreTax", "Inv401kSourceAfterTax", "Inv401kSourceMatch", "Inv401kSourceProfitSharing", "Inv401kSourceRollover", "Inv401kSourceOtherVest", "Inv401kSourceOtherNonVest">>,
  SubAcctType |-> <<"SubAcctTypeCash", "SubAcctTypeMargin", "SubAcctTypeShort", "SubAcctTypeOther">>,
  BuyType |-> <<"BuyTypeBuy", "BuyTypeBuyToCover">>,
  OptAction |-> <<"OptActionExercise", "OptActionAssign", "OptActionExpire">>,
  TferAction |-> <<"TferActionIn", "TferActionOut">>,
  PosType |-> <<"PosTypeLong", "PosTypeShort">>,
  Secured |-> <<"SecuredNaked", "SecuredCovered">>,
  Duration |-> <<"DurationDay", "DurationGoodTilCancel", "DurationImmediate">>,
  Restriction |-> <<"RestrictionAllOrNone", "RestrictionMinUnits", "RestrictionNone">>,
  UnitType |-> <<"UnitTypeShares", "UnitTypeCurrency">>,
  OptBuyType |-> <<"OptBuyTypeBuyToOpen", "OptBuyTypeBuyToClose">>,
  SellType |-> <<"SellTypeSell", "SellTypeSellShort">>,
  LoanPmtFreq |-> <<"LoanPmtFreqWeekly", "LoanPmtFreqBiweekly", "LoanPmtFreqTwiceMonthly", "LoanPmtFreqMonthly", "LoanPmtFreqFourWeeks", "LoanPmtFreqBiMonthly", "LoanPmtFreqQuarterly", "LoanPmtFreqSemiannually", "LoanPmtFreqAnnually", "LoanPmtFreqOther">>,
  IncomeType |-> <<"IncomeTypeCGLong", "IncomeTypeCGShort", "IncomeTypeDiv", "IncomeTypeInterest", "IncomeTypeMisc">>,
  SellReason |-> <<"SellReasonCall", "SellReasonSell", "SellReasonMaturity">>,
  OptSellType |-> <<"OptSellTypeSellToClose", "OptSellTypeSellToOpen">>,
  RelType |-> <<"RelTypeSpread", "RelTypeStraddle", "RelTypeNone", "RelTypeOther">>,
  CharType |-> <<"CharTypeAlphaOnly", "CharTypeNumericOnly", "CharTypeAlphaOrNumeric", "CharTypeAlphaAndNumeric">>,
  SyncMode |-> <<"SyncModeFull", "SyncModeLite">>,
  OfxSec |-> <<"OfxSecNone", "OfxSecType1">>,
  DebtType |-> <<"DebtTypeCoupon", "DebtTypeZero">>,
  DebtClass |-> <<"DebtClassTreasury", "DebtClassMunicipal", "DebtClassCorporate", "DebtClassOther">>,
  CouponFreq |-> <<"CouponFreqMonthly", "CouponFreqQuarterly", "CouponFreqSemiannual", "CouponFreqAnnual", "CouponFreqOther">>,
  CallType |-> <<"CallTypeCall", "CallTypePut", "CallTypePrefund", "CallTypeMaturity">>,
  AssetClass |-> <<"AssetClassDomesticBond", "AssetClassIntlBond", "AssetClassLargeStock", "AssetClassSmallStock", "AssetClassIntlStock", "AssetClassMoneyMrkt", "AssetClassOther">>,
  MfType |-> <<"MfTypeOpenEnd", "MfTypeCloseEnd", "MfTypeOther">>,
  OptType |-> <<"OptTypePut", "OptTypeCall">>,
  StockType |-> <<"StockTypeCommon", "StockTypePreferred", "StockTypeConvertible", "StockTypeOther">>,
  HolderType |-> <<"HolderTypeIndividual", "HolderTypeJoint", "HolderTypeCustodial", "HolderTypeTrust", "HolderTypeOther">>,
  AcctClassification |-> <<"AcctClassificationPersonal", "AcctClassificationBusiness", "AcctClassificationCorporate", "AcctClassificationOther">>,
  SvcStatus |-> <<"SvcStatusAvail", "SvcStatusPend", "SvcStatusActive">>,
  UsProductType |-> <<"UsProductType401K", "UsProductType403B", "UsProductTypeIRA", "UsProductTypeKEOGH", "UsProductTypeOther", "UsProductTypeSARSEP", "UsProductTypeSimple", "UsProductTypeNormal", "UsProductTypeTDA", "UsProductTypeTrust", "UsProductTypeUGMA">>
]

Enums == DOMAIN EnumNames
EnumSet(e) == RangeOf(EnumNames[e])
ParseEnum(e, text) == LET t == Trim(text) IN
  IF t \in EnumSet(e) THEN [st |-> "ok", v |-> t] ELSE [st |-> "bad", v |-> ""]
EnumIndex(e, name) == CHOOSE i \in 1..Len(EnumNames[e]) : EnumNames[e][i] = name
=============================================================================
