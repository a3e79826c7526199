// Registry of the exported enum API (bootstrap-generated once from spec/OfxEnums.tla names; API names only).
package main

import (
	"reflect"

	"github.com/aclindsa/ofxgo"
)

var enumConsts = map[string]map[string]reflect.Value{
	"OfxVersion": {
		"OfxVersion102": reflect.ValueOf(ofxgo.OfxVersion102),
		"OfxVersion103": reflect.ValueOf(ofxgo.OfxVersion103),
		"OfxVersion151": reflect.ValueOf(ofxgo.OfxVersion151),
		"OfxVersion160": reflect.ValueOf(ofxgo.OfxVersion160),
		"OfxVersion200": reflect.ValueOf(ofxgo.OfxVersion200),
		"OfxVersion201": reflect.ValueOf(ofxgo.OfxVersion201),
		"OfxVersion202": reflect.ValueOf(ofxgo.OfxVersion202),
		"OfxVersion203": reflect.ValueOf(ofxgo.OfxVersion203),
		"OfxVersion210": reflect.ValueOf(ofxgo.OfxVersion210),
		"OfxVersion211": reflect.ValueOf(ofxgo.OfxVersion211),
		"OfxVersion220": reflect.ValueOf(ofxgo.OfxVersion220),
	},
	"AcctType": {
		"AcctTypeChecking":   reflect.ValueOf(ofxgo.AcctTypeChecking),
		"AcctTypeSavings":    reflect.ValueOf(ofxgo.AcctTypeSavings),
		"AcctTypeMoneyMrkt":  reflect.ValueOf(ofxgo.AcctTypeMoneyMrkt),
		"AcctTypeCreditLine": reflect.ValueOf(ofxgo.AcctTypeCreditLine),
		"AcctTypeCD":         reflect.ValueOf(ofxgo.AcctTypeCD),
	},
	"TrnType": {
		"TrnTypeCredit":      reflect.ValueOf(ofxgo.TrnTypeCredit),
		"TrnTypeDebit":       reflect.ValueOf(ofxgo.TrnTypeDebit),
		"TrnTypeInt":         reflect.ValueOf(ofxgo.TrnTypeInt),
		"TrnTypeDiv":         reflect.ValueOf(ofxgo.TrnTypeDiv),
		"TrnTypeFee":         reflect.ValueOf(ofxgo.TrnTypeFee),
		"TrnTypeSrvChg":      reflect.ValueOf(ofxgo.TrnTypeSrvChg),
		"TrnTypeDep":         reflect.ValueOf(ofxgo.TrnTypeDep),
		"TrnTypeATM":         reflect.ValueOf(ofxgo.TrnTypeATM),
		"TrnTypePOS":         reflect.ValueOf(ofxgo.TrnTypePOS),
		"TrnTypeXfer":        reflect.ValueOf(ofxgo.TrnTypeXfer),
		"TrnTypeCheck":       reflect.ValueOf(ofxgo.TrnTypeCheck),
		"TrnTypePayment":     reflect.ValueOf(ofxgo.TrnTypePayment),
		"TrnTypeCash":        reflect.ValueOf(ofxgo.TrnTypeCash),
		"TrnTypeDirectDep":   reflect.ValueOf(ofxgo.TrnTypeDirectDep),
		"TrnTypeDirectDebit": reflect.ValueOf(ofxgo.TrnTypeDirectDebit),
		"TrnTypeRepeatPmt":   reflect.ValueOf(ofxgo.TrnTypeRepeatPmt),
		"TrnTypeHold":        reflect.ValueOf(ofxgo.TrnTypeHold),
		"TrnTypeOther":       reflect.ValueOf(ofxgo.TrnTypeOther),
	},
	"ImageType": {
		"ImageTypeStatement":   reflect.ValueOf(ofxgo.ImageTypeStatement),
		"ImageTypeTransaction": reflect.ValueOf(ofxgo.ImageTypeTransaction),
		"ImageTypeTax":         reflect.ValueOf(ofxgo.ImageTypeTax),
	},
	"ImageRefType": {
		"ImageRefTypeOpaque":  reflect.ValueOf(ofxgo.ImageRefTypeOpaque),
		"ImageRefTypeURL":     reflect.ValueOf(ofxgo.ImageRefTypeURL),
		"ImageRefTypeFormURL": reflect.ValueOf(ofxgo.ImageRefTypeFormURL),
	},
	"CheckSup": {
		"CheckSupFrontOnly":    reflect.ValueOf(ofxgo.CheckSupFrontOnly),
		"CheckSupBackOnly":     reflect.ValueOf(ofxgo.CheckSupBackOnly),
		"CheckSupFrontAndBack": reflect.ValueOf(ofxgo.CheckSupFrontAndBack),
	},
	"CorrectAction": {
		"CorrectActionDelete":  reflect.ValueOf(ofxgo.CorrectActionDelete),
		"CorrectActionReplace": reflect.ValueOf(ofxgo.CorrectActionReplace),
	},
	"BalType": {
		"BalTypeDollar":  reflect.ValueOf(ofxgo.BalTypeDollar),
		"BalTypePercent": reflect.ValueOf(ofxgo.BalTypePercent),
		"BalTypeNumber":  reflect.ValueOf(ofxgo.BalTypeNumber),
	},
	"Inv401kSource": {
		"Inv401kSourcePreTax":        reflect.ValueOf(ofxgo.Inv401kSourcePreTax),
		"Inv401kSourceAfterTax":      reflect.ValueOf(ofxgo.Inv401kSourceAfterTax),
		"Inv401kSourceMatch":         reflect.ValueOf(ofxgo.Inv401kSourceMatch),
		"Inv401kSourceProfitSharing": reflect.ValueOf(ofxgo.Inv401kSourceProfitSharing),
		"Inv401kSourceRollover":      reflect.ValueOf(ofxgo.Inv401kSourceRollover),
		"Inv401kSourceOtherVest":     reflect.ValueOf(ofxgo.Inv401kSourceOtherVest),
		"Inv401kSourceOtherNonVest":  reflect.ValueOf(ofxgo.Inv401kSourceOtherNonVest),
	},
	"SubAcctType": {
		"SubAcctTypeCash":   reflect.ValueOf(ofxgo.SubAcctTypeCash),
		"SubAcctTypeMargin": reflect.ValueOf(ofxgo.SubAcctTypeMargin),
		"SubAcctTypeShort":  reflect.ValueOf(ofxgo.SubAcctTypeShort),
		"SubAcctTypeOther":  reflect.ValueOf(ofxgo.SubAcctTypeOther),
	},
	"BuyType": {
		"BuyTypeBuy":        reflect.ValueOf(ofxgo.BuyTypeBuy),
		"BuyTypeBuyToCover": reflect.ValueOf(ofxgo.BuyTypeBuyToCover),
	},
	"OptAction": {
		"OptActionExercise": reflect.ValueOf(ofxgo.OptActionExercise),
		"OptActionAssign":   reflect.ValueOf(ofxgo.OptActionAssign),
		"OptActionExpire":   reflect.ValueOf(ofxgo.OptActionExpire),
	},
	"TferAction": {
		"TferActionIn":  reflect.ValueOf(ofxgo.TferActionIn),
		"TferActionOut": reflect.ValueOf(ofxgo.TferActionOut),
	},
	"PosType": {
		"PosTypeLong":  reflect.ValueOf(ofxgo.PosTypeLong),
		"PosTypeShort": reflect.ValueOf(ofxgo.PosTypeShort),
	},
	"Secured": {
		"SecuredNaked":   reflect.ValueOf(ofxgo.SecuredNaked),
		"SecuredCovered": reflect.ValueOf(ofxgo.SecuredCovered),
	},
	"Duration": {
		"DurationDay":           reflect.ValueOf(ofxgo.DurationDay),
		"DurationGoodTilCancel": reflect.ValueOf(ofxgo.DurationGoodTilCancel),
		"DurationImmediate":     reflect.ValueOf(ofxgo.DurationImmediate),
	},
	"Restriction": {
		"RestrictionAllOrNone": reflect.ValueOf(ofxgo.RestrictionAllOrNone),
		"RestrictionMinUnits":  reflect.ValueOf(ofxgo.RestrictionMinUnits),
		"RestrictionNone":      reflect.ValueOf(ofxgo.RestrictionNone),
	},
	"UnitType": {
		"UnitTypeShares":   reflect.ValueOf(ofxgo.UnitTypeShares),
		"UnitTypeCurrency": reflect.ValueOf(ofxgo.UnitTypeCurrency),
	},
	"OptBuyType": {
		"OptBuyTypeBuyToOpen":  reflect.ValueOf(ofxgo.OptBuyTypeBuyToOpen),
		"OptBuyTypeBuyToClose": reflect.ValueOf(ofxgo.OptBuyTypeBuyToClose),
	},
	"SellType": {
		"SellTypeSell":      reflect.ValueOf(ofxgo.SellTypeSell),
		"SellTypeSellShort": reflect.ValueOf(ofxgo.SellTypeSellShort),
	},
	"LoanPmtFreq": {
		"LoanPmtFreqWeekly":       reflect.ValueOf(ofxgo.LoanPmtFreqWeekly),
		"LoanPmtFreqBiweekly":     reflect.ValueOf(ofxgo.LoanPmtFreqBiweekly),
		"LoanPmtFreqTwiceMonthly": reflect.ValueOf(ofxgo.LoanPmtFreqTwiceMonthly),
		"LoanPmtFreqMonthly":      reflect.ValueOf(ofxgo.LoanPmtFreqMonthly),
		"LoanPmtFreqFourWeeks":    reflect.ValueOf(ofxgo.LoanPmtFreqFourWeeks),
		"LoanPmtFreqBiMonthly":    reflect.ValueOf(ofxgo.LoanPmtFreqBiMonthly),
		"LoanPmtFreqQuarterly":    reflect.ValueOf(ofxgo.LoanPmtFreqQuarterly),
		"LoanPmtFreqSemiannually": reflect.ValueOf(ofxgo.LoanPmtFreqSemiannually),
		"LoanPmtFreqAnnually":     reflect.ValueOf(ofxgo.LoanPmtFreqAnnually),
		"LoanPmtFreqOther":        reflect.ValueOf(ofxgo.LoanPmtFreqOther),
	},
	"IncomeType": {
		"IncomeTypeCGLong":   reflect.ValueOf(ofxgo.IncomeTypeCGLong),
		"IncomeTypeCGShort":  reflect.ValueOf(ofxgo.IncomeTypeCGShort),
		"IncomeTypeDiv":      reflect.ValueOf(ofxgo.IncomeTypeDiv),
		"IncomeTypeInterest": reflect.ValueOf(ofxgo.IncomeTypeInterest),
		"IncomeTypeMisc":     reflect.ValueOf(ofxgo.IncomeTypeMisc),
	},
	"SellReason": {
		"SellReasonCall":     reflect.ValueOf(ofxgo.SellReasonCall),
		"SellReasonSell":     reflect.ValueOf(ofxgo.SellReasonSell),
		"SellReasonMaturity": reflect.ValueOf(ofxgo.SellReasonMaturity),
	},
	"OptSellType": {
		"OptSellTypeSellToClose": reflect.ValueOf(ofxgo.OptSellTypeSellToClose),
		"OptSellTypeSellToOpen":  reflect.ValueOf(ofxgo.OptSellTypeSellToOpen),
	},
	"RelType": {
		"RelTypeSpread":   reflect.ValueOf(ofxgo.RelTypeSpread),
		"RelTypeStraddle": reflect.ValueOf(ofxgo.RelTypeStraddle),
		"RelTypeNone":     reflect.ValueOf(ofxgo.RelTypeNone),
		"RelTypeOther":    reflect.ValueOf(ofxgo.RelTypeOther),
	},
	"CharType": {
		"CharTypeAlphaOnly":       reflect.ValueOf(ofxgo.CharTypeAlphaOnly),
		"CharTypeNumericOnly":     reflect.ValueOf(ofxgo.CharTypeNumericOnly),
		"CharTypeAlphaOrNumeric":  reflect.ValueOf(ofxgo.CharTypeAlphaOrNumeric),
		"CharTypeAlphaAndNumeric": reflect.ValueOf(ofxgo.CharTypeAlphaAndNumeric),
	},
	"SyncMode": {
		"SyncModeFull": reflect.ValueOf(ofxgo.SyncModeFull),
		"SyncModeLite": reflect.ValueOf(ofxgo.SyncModeLite),
	},
	"OfxSec": {
		"OfxSecNone":  reflect.ValueOf(ofxgo.OfxSecNone),
		"OfxSecType1": reflect.ValueOf(ofxgo.OfxSecType1),
	},
	"DebtType": {
		"DebtTypeCoupon": reflect.ValueOf(ofxgo.DebtTypeCoupon),
		"DebtTypeZero":   reflect.ValueOf(ofxgo.DebtTypeZero),
	},
	"DebtClass": {
		"DebtClassTreasury":  reflect.ValueOf(ofxgo.DebtClassTreasury),
		"DebtClassMunicipal": reflect.ValueOf(ofxgo.DebtClassMunicipal),
		"DebtClassCorporate": reflect.ValueOf(ofxgo.DebtClassCorporate),
		"DebtClassOther":     reflect.ValueOf(ofxgo.DebtClassOther),
	},
	"CouponFreq": {
		"CouponFreqMonthly":    reflect.ValueOf(ofxgo.CouponFreqMonthly),
		"CouponFreqQuarterly":  reflect.ValueOf(ofxgo.CouponFreqQuarterly),
		"CouponFreqSemiannual": reflect.ValueOf(ofxgo.CouponFreqSemiannual),
		"CouponFreqAnnual":     reflect.ValueOf(ofxgo.CouponFreqAnnual),
		"CouponFreqOther":      reflect.ValueOf(ofxgo.CouponFreqOther),
	},
	"CallType": {
		"CallTypeCall":     reflect.ValueOf(ofxgo.CallTypeCall),
		"CallTypePut":      reflect.ValueOf(ofxgo.CallTypePut),
		"CallTypePrefund":  reflect.ValueOf(ofxgo.CallTypePrefund),
		"CallTypeMaturity": reflect.ValueOf(ofxgo.CallTypeMaturity),
	},
	"AssetClass": {
		"AssetClassDomesticBond": reflect.ValueOf(ofxgo.AssetClassDomesticBond),
		"AssetClassIntlBond":     reflect.ValueOf(ofxgo.AssetClassIntlBond),
		"AssetClassLargeStock":   reflect.ValueOf(ofxgo.AssetClassLargeStock),
		"AssetClassSmallStock":   reflect.ValueOf(ofxgo.AssetClassSmallStock),
		"AssetClassIntlStock":    reflect.ValueOf(ofxgo.AssetClassIntlStock),
		"AssetClassMoneyMrkt":    reflect.ValueOf(ofxgo.AssetClassMoneyMrkt),
		"AssetClassOther":        reflect.ValueOf(ofxgo.AssetClassOther),
	},
	"MfType": {
		"MfTypeOpenEnd":  reflect.ValueOf(ofxgo.MfTypeOpenEnd),
		"MfTypeCloseEnd": reflect.ValueOf(ofxgo.MfTypeCloseEnd),
		"MfTypeOther":    reflect.ValueOf(ofxgo.MfTypeOther),
	},
	"OptType": {
		"OptTypePut":  reflect.ValueOf(ofxgo.OptTypePut),
		"OptTypeCall": reflect.ValueOf(ofxgo.OptTypeCall),
	},
	"StockType": {
		"StockTypeCommon":      reflect.ValueOf(ofxgo.StockTypeCommon),
		"StockTypePreferred":   reflect.ValueOf(ofxgo.StockTypePreferred),
		"StockTypeConvertible": reflect.ValueOf(ofxgo.StockTypeConvertible),
		"StockTypeOther":       reflect.ValueOf(ofxgo.StockTypeOther),
	},
	"HolderType": {
		"HolderTypeIndividual": reflect.ValueOf(ofxgo.HolderTypeIndividual),
		"HolderTypeJoint":      reflect.ValueOf(ofxgo.HolderTypeJoint),
		"HolderTypeCustodial":  reflect.ValueOf(ofxgo.HolderTypeCustodial),
		"HolderTypeTrust":      reflect.ValueOf(ofxgo.HolderTypeTrust),
		"HolderTypeOther":      reflect.ValueOf(ofxgo.HolderTypeOther),
	},
	"AcctClassification": {
		"AcctClassificationPersonal":  reflect.ValueOf(ofxgo.AcctClassificationPersonal),
		"AcctClassificationBusiness":  reflect.ValueOf(ofxgo.AcctClassificationBusiness),
		"AcctClassificationCorporate": reflect.ValueOf(ofxgo.AcctClassificationCorporate),
		"AcctClassificationOther":     reflect.ValueOf(ofxgo.AcctClassificationOther),
	},
	"SvcStatus": {
		"SvcStatusAvail":  reflect.ValueOf(ofxgo.SvcStatusAvail),
		"SvcStatusPend":   reflect.ValueOf(ofxgo.SvcStatusPend),
		"SvcStatusActive": reflect.ValueOf(ofxgo.SvcStatusActive),
	},
	"UsProductType": {
		"UsProductType401K":   reflect.ValueOf(ofxgo.UsProductType401K),
		"UsProductType403B":   reflect.ValueOf(ofxgo.UsProductType403B),
		"UsProductTypeIRA":    reflect.ValueOf(ofxgo.UsProductTypeIRA),
		"UsProductTypeKEOGH":  reflect.ValueOf(ofxgo.UsProductTypeKEOGH),
		"UsProductTypeOther":  reflect.ValueOf(ofxgo.UsProductTypeOther),
		"UsProductTypeSARSEP": reflect.ValueOf(ofxgo.UsProductTypeSARSEP),
		"UsProductTypeSimple": reflect.ValueOf(ofxgo.UsProductTypeSimple),
		"UsProductTypeNormal": reflect.ValueOf(ofxgo.UsProductTypeNormal),
		"UsProductTypeTDA":    reflect.ValueOf(ofxgo.UsProductTypeTDA),
		"UsProductTypeTrust":  reflect.ValueOf(ofxgo.UsProductTypeTrust),
		"UsProductTypeUGMA":   reflect.ValueOf(ofxgo.UsProductTypeUGMA),
	},
}

var enumNew = map[string]reflect.Value{
	"OfxVersion":         reflect.ValueOf(ofxgo.NewOfxVersion),
	"AcctType":           reflect.ValueOf(ofxgo.NewAcctType),
	"TrnType":            reflect.ValueOf(ofxgo.NewTrnType),
	"ImageType":          reflect.ValueOf(ofxgo.NewImageType),
	"ImageRefType":       reflect.ValueOf(ofxgo.NewImageRefType),
	"CheckSup":           reflect.ValueOf(ofxgo.NewCheckSup),
	"CorrectAction":      reflect.ValueOf(ofxgo.NewCorrectAction),
	"BalType":            reflect.ValueOf(ofxgo.NewBalType),
	"Inv401kSource":      reflect.ValueOf(ofxgo.NewInv401kSource),
	"SubAcctType":        reflect.ValueOf(ofxgo.NewSubAcctType),
	"BuyType":            reflect.ValueOf(ofxgo.NewBuyType),
	"OptAction":          reflect.ValueOf(ofxgo.NewOptAction),
	"TferAction":         reflect.ValueOf(ofxgo.NewTferAction),
	"PosType":            reflect.ValueOf(ofxgo.NewPosType),
	"Secured":            reflect.ValueOf(ofxgo.NewSecured),
	"Duration":           reflect.ValueOf(ofxgo.NewDuration),
	"Restriction":        reflect.ValueOf(ofxgo.NewRestriction),
	"UnitType":           reflect.ValueOf(ofxgo.NewUnitType),
	"OptBuyType":         reflect.ValueOf(ofxgo.NewOptBuyType),
	"SellType":           reflect.ValueOf(ofxgo.NewSellType),
	"LoanPmtFreq":        reflect.ValueOf(ofxgo.NewLoanPmtFreq),
	"IncomeType":         reflect.ValueOf(ofxgo.NewIncomeType),
	"SellReason":         reflect.ValueOf(ofxgo.NewSellReason),
	"OptSellType":        reflect.ValueOf(ofxgo.NewOptSellType),
	"RelType":            reflect.ValueOf(ofxgo.NewRelType),
	"CharType":           reflect.ValueOf(ofxgo.NewCharType),
	"SyncMode":           reflect.ValueOf(ofxgo.NewSyncMode),
	"OfxSec":             reflect.ValueOf(ofxgo.NewOfxSec),
	"DebtType":           reflect.ValueOf(ofxgo.NewDebtType),
	"DebtClass":          reflect.ValueOf(ofxgo.NewDebtClass),
	"CouponFreq":         reflect.ValueOf(ofxgo.NewCouponFreq),
	"CallType":           reflect.ValueOf(ofxgo.NewCallType),
	"AssetClass":         reflect.ValueOf(ofxgo.NewAssetClass),
	"MfType":             reflect.ValueOf(ofxgo.NewMfType),
	"OptType":            reflect.ValueOf(ofxgo.NewOptType),
	"StockType":          reflect.ValueOf(ofxgo.NewStockType),
	"HolderType":         reflect.ValueOf(ofxgo.NewHolderType),
	"AcctClassification": reflect.ValueOf(ofxgo.NewAcctClassification),
	"SvcStatus":          reflect.ValueOf(ofxgo.NewSvcStatus),
	"UsProductType":      reflect.ValueOf(ofxgo.NewUsProductType),
}
