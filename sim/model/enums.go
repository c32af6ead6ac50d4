package model

// Frozen table: wire value of every enumerated OFX element -> exported constant.
// Written once from the OFX specification's value lists; never regenerated from
// the library's own string tables at check time.

import "github.com/aclindsa/ofxgo"

var Enums = map[string]map[string]any{
	"ofxVersion": {
		"102": ofxgo.OfxVersion102,
		"103": ofxgo.OfxVersion103,
		"151": ofxgo.OfxVersion151,
		"160": ofxgo.OfxVersion160,
		"200": ofxgo.OfxVersion200,
		"201": ofxgo.OfxVersion201,
		"202": ofxgo.OfxVersion202,
		"203": ofxgo.OfxVersion203,
		"210": ofxgo.OfxVersion210,
		"211": ofxgo.OfxVersion211,
		"220": ofxgo.OfxVersion220,
	},
	"acctType": {
		"CHECKING":   ofxgo.AcctTypeChecking,
		"SAVINGS":    ofxgo.AcctTypeSavings,
		"MONEYMRKT":  ofxgo.AcctTypeMoneyMrkt,
		"CREDITLINE": ofxgo.AcctTypeCreditLine,
		"CD":         ofxgo.AcctTypeCD,
	},
	"trnType": {
		"CREDIT":      ofxgo.TrnTypeCredit,
		"DEBIT":       ofxgo.TrnTypeDebit,
		"INT":         ofxgo.TrnTypeInt,
		"DIV":         ofxgo.TrnTypeDiv,
		"FEE":         ofxgo.TrnTypeFee,
		"SRVCHG":      ofxgo.TrnTypeSrvChg,
		"DEP":         ofxgo.TrnTypeDep,
		"ATM":         ofxgo.TrnTypeATM,
		"POS":         ofxgo.TrnTypePOS,
		"XFER":        ofxgo.TrnTypeXfer,
		"CHECK":       ofxgo.TrnTypeCheck,
		"PAYMENT":     ofxgo.TrnTypePayment,
		"CASH":        ofxgo.TrnTypeCash,
		"DIRECTDEP":   ofxgo.TrnTypeDirectDep,
		"DIRECTDEBIT": ofxgo.TrnTypeDirectDebit,
		"REPEATPMT":   ofxgo.TrnTypeRepeatPmt,
		"HOLD":        ofxgo.TrnTypeHold,
		"OTHER":       ofxgo.TrnTypeOther,
	},
	"imageType": {
		"STATEMENT":   ofxgo.ImageTypeStatement,
		"TRANSACTION": ofxgo.ImageTypeTransaction,
		"TAX":         ofxgo.ImageTypeTax,
	},
	"imageRefType": {
		"OPAQUE":  ofxgo.ImageRefTypeOpaque,
		"URL":     ofxgo.ImageRefTypeURL,
		"FORMURL": ofxgo.ImageRefTypeFormURL,
	},
	"checkSup": {
		"FRONTONLY":    ofxgo.CheckSupFrontOnly,
		"BACKONLY":     ofxgo.CheckSupBackOnly,
		"FRONTANDBACK": ofxgo.CheckSupFrontAndBack,
	},
	"correctAction": {
		"DELETE":  ofxgo.CorrectActionDelete,
		"REPLACE": ofxgo.CorrectActionReplace,
	},
	"balType": {
		"DOLLAR":  ofxgo.BalTypeDollar,
		"PERCENT": ofxgo.BalTypePercent,
		"NUMBER":  ofxgo.BalTypeNumber,
	},
	"inv401kSource": {
		"PRETAX":        ofxgo.Inv401kSourcePreTax,
		"AFTERTAX":      ofxgo.Inv401kSourceAfterTax,
		"MATCH":         ofxgo.Inv401kSourceMatch,
		"PROFITSHARING": ofxgo.Inv401kSourceProfitSharing,
		"ROLLOVER":      ofxgo.Inv401kSourceRollover,
		"OTHERVEST":     ofxgo.Inv401kSourceOtherVest,
		"OTHERNONVEST":  ofxgo.Inv401kSourceOtherNonVest,
	},
	"subAcctType": {
		"CASH":   ofxgo.SubAcctTypeCash,
		"MARGIN": ofxgo.SubAcctTypeMargin,
		"SHORT":  ofxgo.SubAcctTypeShort,
		"OTHER":  ofxgo.SubAcctTypeOther,
	},
	"buyType": {
		"BUY":        ofxgo.BuyTypeBuy,
		"BUYTOCOVER": ofxgo.BuyTypeBuyToCover,
	},
	"optAction": {
		"EXERCISE": ofxgo.OptActionExercise,
		"ASSIGN":   ofxgo.OptActionAssign,
		"EXPIRE":   ofxgo.OptActionExpire,
	},
	"tferAction": {
		"IN":  ofxgo.TferActionIn,
		"OUT": ofxgo.TferActionOut,
	},
	"posType": {
		"LONG":  ofxgo.PosTypeLong,
		"SHORT": ofxgo.PosTypeShort,
	},
	"secured": {
		"NAKED":   ofxgo.SecuredNaked,
		"COVERED": ofxgo.SecuredCovered,
	},
	"duration": {
		"DAY":           ofxgo.DurationDay,
		"GOODTILCANCEL": ofxgo.DurationGoodTilCancel,
		"IMMEDIATE":     ofxgo.DurationImmediate,
	},
	"restriction": {
		"ALLORNONE": ofxgo.RestrictionAllOrNone,
		"MINUNITS":  ofxgo.RestrictionMinUnits,
		"NONE":      ofxgo.RestrictionNone,
	},
	"unitType": {
		"SHARES":   ofxgo.UnitTypeShares,
		"CURRENCY": ofxgo.UnitTypeCurrency,
	},
	"optBuyType": {
		"BUYTOOPEN":  ofxgo.OptBuyTypeBuyToOpen,
		"BUYTOCLOSE": ofxgo.OptBuyTypeBuyToClose,
	},
	"sellType": {
		"SELL":      ofxgo.SellTypeSell,
		"SELLSHORT": ofxgo.SellTypeSellShort,
	},
	"loanPmtFreq": {
		"WEEKLY":       ofxgo.LoanPmtFreqWeekly,
		"BIWEEKLY":     ofxgo.LoanPmtFreqBiweekly,
		"TWICEMONTHLY": ofxgo.LoanPmtFreqTwiceMonthly,
		"MONTHLY":      ofxgo.LoanPmtFreqMonthly,
		"FOURWEEKS":    ofxgo.LoanPmtFreqFourWeeks,
		"BIMONTHLY":    ofxgo.LoanPmtFreqBiMonthly,
		"QUARTERLY":    ofxgo.LoanPmtFreqQuarterly,
		"SEMIANNUALLY": ofxgo.LoanPmtFreqSemiannually,
		"ANNUALLY":     ofxgo.LoanPmtFreqAnnually,
		"OTHER":        ofxgo.LoanPmtFreqOther,
	},
	"incomeType": {
		"CGLONG":   ofxgo.IncomeTypeCGLong,
		"CGSHORT":  ofxgo.IncomeTypeCGShort,
		"DIV":      ofxgo.IncomeTypeDiv,
		"INTEREST": ofxgo.IncomeTypeInterest,
		"MISC":     ofxgo.IncomeTypeMisc,
	},
	"sellReason": {
		"CALL":     ofxgo.SellReasonCall,
		"SELL":     ofxgo.SellReasonSell,
		"MATURITY": ofxgo.SellReasonMaturity,
	},
	"optSellType": {
		"SELLTOCLOSE": ofxgo.OptSellTypeSellToClose,
		"SELLTOOPEN":  ofxgo.OptSellTypeSellToOpen,
	},
	"relType": {
		"SPREAD":   ofxgo.RelTypeSpread,
		"STRADDLE": ofxgo.RelTypeStraddle,
		"NONE":     ofxgo.RelTypeNone,
		"OTHER":    ofxgo.RelTypeOther,
	},
	"charType": {
		"ALPHAONLY":       ofxgo.CharTypeAlphaOnly,
		"NUMERICONLY":     ofxgo.CharTypeNumericOnly,
		"ALPHAORNUMERIC":  ofxgo.CharTypeAlphaOrNumeric,
		"ALPHAANDNUMERIC": ofxgo.CharTypeAlphaAndNumeric,
	},
	"syncMode": {
		"FULL": ofxgo.SyncModeFull,
		"LITE": ofxgo.SyncModeLite,
	},
	"ofxSec": {
		"NONE":   ofxgo.OfxSecNone,
		"TYPE 1": ofxgo.OfxSecType1,
	},
	"debtType": {
		"COUPON": ofxgo.DebtTypeCoupon,
		"ZERO":   ofxgo.DebtTypeZero,
	},
	"debtClass": {
		"TREASURY":  ofxgo.DebtClassTreasury,
		"MUNICIPAL": ofxgo.DebtClassMunicipal,
		"CORPORATE": ofxgo.DebtClassCorporate,
		"OTHER":     ofxgo.DebtClassOther,
	},
	"couponFreq": {
		"MONTHLY":    ofxgo.CouponFreqMonthly,
		"QUARTERLY":  ofxgo.CouponFreqQuarterly,
		"SEMIANNUAL": ofxgo.CouponFreqSemiannual,
		"ANNUAL":     ofxgo.CouponFreqAnnual,
		"OTHER":      ofxgo.CouponFreqOther,
	},
	"callType": {
		"CALL":     ofxgo.CallTypeCall,
		"PUT":      ofxgo.CallTypePut,
		"PREFUND":  ofxgo.CallTypePrefund,
		"MATURITY": ofxgo.CallTypeMaturity,
	},
	"assetClass": {
		"DOMESTICBOND": ofxgo.AssetClassDomesticBond,
		"INTLBOND":     ofxgo.AssetClassIntlBond,
		"LARGESTOCK":   ofxgo.AssetClassLargeStock,
		"SMALLSTOCK":   ofxgo.AssetClassSmallStock,
		"INTLSTOCK":    ofxgo.AssetClassIntlStock,
		"MONEYMRKT":    ofxgo.AssetClassMoneyMrkt,
		"OTHER":        ofxgo.AssetClassOther,
	},
	"mfType": {
		"OPENEND":  ofxgo.MfTypeOpenEnd,
		"CLOSEEND": ofxgo.MfTypeCloseEnd,
		"OTHER":    ofxgo.MfTypeOther,
	},
	"optType": {
		"PUT":  ofxgo.OptTypePut,
		"CALL": ofxgo.OptTypeCall,
	},
	"stockType": {
		"COMMON":      ofxgo.StockTypeCommon,
		"PREFERRED":   ofxgo.StockTypePreferred,
		"CONVERTIBLE": ofxgo.StockTypeConvertible,
		"OTHER":       ofxgo.StockTypeOther,
	},
	"holderType": {
		"INDIVIDUAL": ofxgo.HolderTypeIndividual,
		"JOINT":      ofxgo.HolderTypeJoint,
		"CUSTODIAL":  ofxgo.HolderTypeCustodial,
		"TRUST":      ofxgo.HolderTypeTrust,
		"OTHER":      ofxgo.HolderTypeOther,
	},
	"acctClassification": {
		"PERSONAL":  ofxgo.AcctClassificationPersonal,
		"BUSINESS":  ofxgo.AcctClassificationBusiness,
		"CORPORATE": ofxgo.AcctClassificationCorporate,
		"OTHER":     ofxgo.AcctClassificationOther,
	},
	"svcStatus": {
		"AVAIL":  ofxgo.SvcStatusAvail,
		"PEND":   ofxgo.SvcStatusPend,
		"ACTIVE": ofxgo.SvcStatusActive,
	},
	"usProductType": {
		"401K":   ofxgo.UsProductType401K,
		"403B":   ofxgo.UsProductType403B,
		"IRA":    ofxgo.UsProductTypeIRA,
		"KEOGH":  ofxgo.UsProductTypeKEOGH,
		"OTHER":  ofxgo.UsProductTypeOther,
		"SARSEP": ofxgo.UsProductTypeSARSEP,
		"SIMPLE": ofxgo.UsProductTypeSimple,
		"NORMAL": ofxgo.UsProductTypeNormal,
		"TDA":    ofxgo.UsProductTypeTDA,
		"TRUST":  ofxgo.UsProductTypeTrust,
		"UGMA":   ofxgo.UsProductTypeUGMA,
	},
}
