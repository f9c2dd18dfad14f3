package h

// All lists every harness for the native runner.
var All = map[string]func(){
	"Again":                Again,
	"Beside":               Beside,
	"BitRev":               BitRev,
	"CLICount":             CLICount,
	"CLIFails":             CLIFails,
	"CLINumber":            CLINumber,
	"CLIParted":            CLIParted,
	"CLIPower":             CLIPower,
	"CLITransform":         CLITransform,
	"CLIUnknown":           CLIUnknown,
	"CLIWorks":             CLIWorks,
	"CPUs":                 CPUs,
	"ChainFresh":           ChainFresh,
	"EndToEnd":             EndToEnd,
	"IOAlias":              IOAlias,
	"IOCollide":            IOCollide,
	"IODir":                IODir,
	"IOFull":               IOFull,
	"IOKeep":               IOKeep,
	"IOLimit":              IOLimit,
	"IOMissing":            IOMissing,
	"IONames":              IONames,
	"IOOver":               IOOver,
	"IdiomAtomic":          IdiomAtomic,
	"IdiomBinary":          IdiomBinary,
	"IdiomBufio":           IdiomBufio,
	"IdiomBytes":           IdiomBytes,
	"IdiomChance":          IdiomChance,
	"IdiomErrors":          IdiomErrors,
	"IdiomFmt":             IdiomFmt,
	"IdiomFr":              IdiomFr,
	"IdiomLang":            IdiomLang,
	"IdiomMath":            IdiomMath,
	"IdiomPoints":          IdiomPoints,
	"IdiomSlices":          IdiomSlices,
	"IdiomSlow":            IdiomSlow,
	"IdiomStrconv":         IdiomStrconv,
	"IdiomSync":            IdiomSync,
	"IdiomTime":            IdiomTime,
	"KeysBadPoint":         KeysBadPoint,
	"KeysExtract":          KeysExtract,
	"KeysFresh":            KeysFresh,
	"KeysHeader":           KeysHeader,
	"KeysLarge":            KeysLarge,
	"KeysLength":           KeysLength,
	"KeysMany":             KeysMany,
	"KeysMismatch":         KeysMismatch,
	"KeysMissing":          KeysMissing,
	"KeysOver":             KeysOver,
	"KeysReadable":         KeysReadable,
	"KeysSession":          KeysSession,
	"KeysSplit":            KeysSplit,
	"KeysTruncated":        KeysTruncated,
	"KeysWide":             KeysWide,
	"LagG1":                LagG1,
	"LagG2":                LagG2,
	"LagRace":              LagRace,
	"LagSchedules":         LagSchedules,
	"LagSpecial":           LagSpecial,
	"LazyInit":             LazyInit,
	"P1BadPoint":           P1BadPoint,
	"P1BaseLarge":          P1BaseLarge,
	"P1Big":                P1Big,
	"P1Bind":               P1Bind,
	"P1Chain":              P1Chain,
	"P1Contribute":         P1Contribute,
	"P1Counts":             P1Counts,
	"P1Fresh":              P1Fresh,
	"P1Full":               P1Full,
	"P1Header":             P1Header,
	"P1HonestRef":          P1HonestRef,
	"P1Infinity":           P1Infinity,
	"P1Init":               P1Init,
	"P1Layout":             P1Layout,
	"P1Many":               P1Many,
	"P1Missing":            P1Missing,
	"P1Power":              P1Power,
	"P1Same":               P1Same,
	"P1Sound0":             P1Sound0,
	"P1Sound1":             P1Sound1,
	"P1Sound2":             P1Sound2,
	"P1SoundTransformed":   P1SoundTransformed,
	"P1SoundWide":          P1SoundWide,
	"P1Trailing":           P1Trailing,
	"P1Transform":          P1Transform,
	"P1TransformBad":       P1TransformBad,
	"P1TransformChain":     P1TransformChain,
	"P1TransformLarge":     P1TransformLarge,
	"P1TransformMalformed": P1TransformMalformed,
	"P1Truncated":          P1Truncated,
	"P1TruncatedBase":      P1TruncatedBase,
	"P1UseBadPoint":        P1UseBadPoint,
	"P1UseTruncated":       P1UseTruncated,
	"P2BadPoint":           P2BadPoint,
	"P2Big":                P2Big,
	"P2Bind":               P2Bind,
	"P2Chain":              P2Chain,
	"P2Contribute":         P2Contribute,
	"P2Fresh":              P2Fresh,
	"P2HeaderOp":           P2HeaderOp,
	"P2HeaderVerify":       P2HeaderVerify,
	"P2HonestRef":          P2HonestRef,
	"P2Infinity":           P2Infinity,
	"P2Init":               P2Init,
	"P2InitBase":           P2InitBase,
	"P2InitCoeffs":         P2InitCoeffs,
	"P2InitCommit":         P2InitCommit,
	"P2InitLarge":          P2InitLarge,
	"P2InitMany":           P2InitMany,
	"P2InitSizes":          P2InitSizes,
	"P2InitSparse":         P2InitSparse,
	"P2Layout":             P2Layout,
	"P2Many":               P2Many,
	"P2Missing":            P2Missing,
	"P2Same":               P2Same,
	"P2Sound0":             P2Sound0,
	"P2Sound1":             P2Sound1,
	"P2SoundN":             P2SoundN,
	"P2SoundWide":          P2SoundWide,
	"P2TooLarge":           P2TooLarge,
	"P2Truncated":          P2Truncated,
	"P2TruncatedOrigin":    P2TruncatedOrigin,
	"P2Wide":               P2Wide,
	"ParEmpty":             ParEmpty,
	"ParMany":              ParMany,
	"ParSchedules":         ParSchedules,
	"ParSlow":              ParSlow,
	"ParSpans":             ParSpans,
	"PartedArgs":           PartedArgs,
	"PartedCommit":         PartedCommit,
	"PartedInit":           PartedInit,
	"PartedLarge":          PartedLarge,
	"PartedLazyInit":       PartedLazyInit,
	"PartedMissing":        PartedMissing,
	"PartedSame":           PartedSame,
	"PartedSizes":          PartedSizes,
	"PartedSparse":         PartedSparse,
	"PartedTooLarge":       PartedTooLarge,
	"RandFail":             RandFail,
	"SolBad":               SolBad,
	"SolExport":            SolExport,
	"SolPipeline":          SolPipeline,
	"SolWide":              SolWide,
}
