package main

import "github.com/dragmz/teal"

// Every instruction builder of the package, empty; fields are filled in by reflection.
var builderTypes = []func() teal.Op{
	func() teal.Op { return &teal.ErrExpr{} },
	func() teal.Op { return &teal.Sha3256Expr{} },
	func() teal.Op { return &teal.Sha256Expr{} },
	func() teal.Op { return &teal.Keccak256Expr{} },
	func() teal.Op { return &teal.Sha512256Expr{} },
	func() teal.Op { return &teal.ED25519VerifyExpr{} },
	func() teal.Op { return &teal.EcdsaVerifyExpr{} },
	func() teal.Op { return &teal.EcdsaPkDecompressExpr{} },
	func() teal.Op { return &teal.EcdsaPkRecoverExpr{} },
	func() teal.Op { return &teal.PlusExpr{} },
	func() teal.Op { return &teal.MinusExpr{} },
	func() teal.Op { return &teal.DivExpr{} },
	func() teal.Op { return &teal.MulExpr{} },
	func() teal.Op { return &teal.LtExpr{} },
	func() teal.Op { return &teal.GtExpr{} },
	func() teal.Op { return &teal.LtEqExpr{} },
	func() teal.Op { return &teal.GtEqExpr{} },
	func() teal.Op { return &teal.AndExpr{} },
	func() teal.Op { return &teal.OrExpr{} },
	func() teal.Op { return &teal.EqExpr{} },
	func() teal.Op { return &teal.NeqExpr{} },
	func() teal.Op { return &teal.NotExpr{} },
	func() teal.Op { return &teal.LenExpr{} },
	func() teal.Op { return &teal.ItobExpr{} },
	func() teal.Op { return &teal.BtoiExpr{} },
	func() teal.Op { return &teal.ModExpr{} },
	func() teal.Op { return &teal.BitOrExpr{} },
	func() teal.Op { return &teal.BitAndExpr{} },
	func() teal.Op { return &teal.BitXorExpr{} },
	func() teal.Op { return &teal.BitNotExpr{} },
	func() teal.Op { return &teal.MulwExpr{} },
	func() teal.Op { return &teal.AddwExpr{} },
	func() teal.Op { return &teal.DivModwExpr{} },
	func() teal.Op { return &teal.IntcBlockExpr{} },
	func() teal.Op { return &teal.IntcExpr{} },
	func() teal.Op { return &teal.Intc0Expr{} },
	func() teal.Op { return &teal.Intc1Expr{} },
	func() teal.Op { return &teal.Intc2Expr{} },
	func() teal.Op { return &teal.Intc3Expr{} },
	func() teal.Op { return &teal.BytecBlockExpr{} },
	func() teal.Op { return &teal.BytecExpr{} },
	func() teal.Op { return &teal.Bytec0Expr{} },
	func() teal.Op { return &teal.Bytec1Expr{} },
	func() teal.Op { return &teal.Bytec2Expr{} },
	func() teal.Op { return &teal.Bytec3Expr{} },
	func() teal.Op { return &teal.ArgExpr{} },
	func() teal.Op { return &teal.Arg0Expr{} },
	func() teal.Op { return &teal.Arg1Expr{} },
	func() teal.Op { return &teal.Arg2Expr{} },
	func() teal.Op { return &teal.Arg3Expr{} },
	func() teal.Op { return &teal.TxnExpr{} },
	func() teal.Op { return &teal.GlobalExpr{} },
	func() teal.Op { return &teal.LoadExpr{} },
	func() teal.Op { return &teal.StoreExpr{} },
	func() teal.Op { return &teal.TxnaExpr{} },
	func() teal.Op { return &teal.GtxnExpr{} },
	func() teal.Op { return &teal.GtxnsExpr{} },
	func() teal.Op { return &teal.ProtoExpr{} },
	func() teal.Op { return &teal.PushBytesExpr{} },
	func() teal.Op { return &teal.PushIntExpr{} },
	func() teal.Op { return &teal.IntExpr{} },
	func() teal.Op { return &teal.ByteExpr{} },
	func() teal.Op { return &teal.BoxGetExpr{} },
	func() teal.Op { return &teal.BoxPutExpr{} },
	func() teal.Op { return &teal.BoxCreateExpr{} },
	func() teal.Op { return &teal.BoxLenExpr{} },
	func() teal.Op { return &teal.BoxDelExpr{} },
	func() teal.Op { return &teal.BoxReplaceExpr{} },
	func() teal.Op { return &teal.BoxExtractExpr{} },
	func() teal.Op { return &teal.BnzExpr{} },
	func() teal.Op { return &teal.BzExpr{} },
	func() teal.Op { return &teal.BExpr{} },
	func() teal.Op { return &teal.AppLocalGetExpr{} },
	func() teal.Op { return &teal.AppLocalPutExpr{} },
	func() teal.Op { return &teal.AppGlobalPutExpr{} },
	func() teal.Op { return &teal.AppGlobalGetExpr{} },
	func() teal.Op { return &teal.AppGlobalGetExExpr{} },
	func() teal.Op { return &teal.AppLocalGetExExpr{} },
	func() teal.Op { return &teal.AppLocalDelExpr{} },
	func() teal.Op { return &teal.RetSubExpr{} },
	func() teal.Op { return &teal.ReturnExpr{} },
	func() teal.Op { return &teal.SwitchExpr{} },
	func() teal.Op { return &teal.MatchExpr{} },
	func() teal.Op { return &teal.CallSubExpr{} },
	func() teal.Op { return &teal.AssertExpr{} },
	func() teal.Op { return &teal.DupExpr{} },
	func() teal.Op { return &teal.BuryExpr{} },
	func() teal.Op { return &teal.PopNExpr{} },
	func() teal.Op { return &teal.DupNExpr{} },
	func() teal.Op { return &teal.ExtractUint16Expr{} },
	func() teal.Op { return &teal.ExtractUint32Expr{} },
	func() teal.Op { return &teal.Extract64BitsExpr{} },
	func() teal.Op { return &teal.Replace2Expr{} },
	func() teal.Op { return &teal.Replace3Expr{} },
	func() teal.Op { return &teal.Base64DecodeExpr{} },
	func() teal.Op { return &teal.JsonRefExpr{} },
	func() teal.Op { return &teal.Ed25519VerifyBareExpr{} },
	func() teal.Op { return &teal.BitLenExpr{} },
	func() teal.Op { return &teal.ExpwExpr{} },
	func() teal.Op { return &teal.ItxnaExpr{} },
	func() teal.Op { return &teal.GtxnasExpr{} },
	func() teal.Op { return &teal.ArgsExpr{} },
	func() teal.Op { return &teal.GloadssExpr{} },
	func() teal.Op { return &teal.ItxnasExpr{} },
	func() teal.Op { return &teal.GitxnasExpr{} },
	func() teal.Op { return &teal.PushIntsExpr{} },
	func() teal.Op { return &teal.MethodExpr{} },
	func() teal.Op { return &teal.AddrExpr{} },
	func() teal.Op { return &teal.PushBytessExpr{} },
	func() teal.Op { return &teal.EcAddExpr{} },
	func() teal.Op { return &teal.EcScalarMul{} },
	func() teal.Op { return &teal.EcPairingCheckExpr{} },
	func() teal.Op { return &teal.EcMultiExpExpr{} },
	func() teal.Op { return &teal.EcSubgroupCheckExpr{} },
	func() teal.Op { return &teal.EcMapToExpr{} },
	func() teal.Op { return &teal.FrameBuryExpr{} },
	func() teal.Op { return &teal.FrameDigExpr{} },
	func() teal.Op { return &teal.SetByteExpr{} },
	func() teal.Op { return &teal.CoverExpr{} },
	func() teal.Op { return &teal.UncoverExpr{} },
	func() teal.Op { return &teal.AssetParamsGetExpr{} },
	func() teal.Op { return &teal.ConcatExpr{} },
	func() teal.Op { return &teal.ItxnBeginExpr{} },
	func() teal.Op { return &teal.ItxnSubmitExpr{} },
	func() teal.Op { return &teal.ItxnExpr{} },
	func() teal.Op { return &teal.ItxnFieldExpr{} },
	func() teal.Op { return &teal.PopExpr{} },
	func() teal.Op { return &teal.SwapExpr{} },
	func() teal.Op { return &teal.GtxnaExpr{} },
	func() teal.Op { return &teal.GtxnsaExpr{} },
	func() teal.Op { return &teal.GloadExpr{} },
	func() teal.Op { return &teal.GloadsExpr{} },
	func() teal.Op { return &teal.SqrtExpr{} },
	func() teal.Op { return &teal.BalanceExpr{} },
	func() teal.Op { return &teal.TxnasExpr{} },
	func() teal.Op { return &teal.ExtractExpr{} },
	func() teal.Op { return &teal.ExpExpr{} },
	func() teal.Op { return &teal.AppParamsGetExpr{} },
	func() teal.Op { return &teal.AcctParamsGetExpr{} },
	func() teal.Op { return &teal.LogExpr{} },
	func() teal.Op { return &teal.BlockExpr{} },
	func() teal.Op { return &teal.VrfVerifyExpr{} },
	func() teal.Op { return &teal.Extract3Expr{} },
	func() teal.Op { return &teal.ExtractUint64Expr{} },
	func() teal.Op { return &teal.AssetHoldingGetExpr{} },
	func() teal.Op { return &teal.ItxnNextExpr{} },
	func() teal.Op { return &teal.MinBalanceExpr{} },
	func() teal.Op { return &teal.GitxnExpr{} },
	func() teal.Op { return &teal.BzeroExpr{} },
	func() teal.Op { return &teal.GetByteExpr{} },
	func() teal.Op { return &teal.Substring3Expr{} },
	func() teal.Op { return &teal.ShlExpr{} },
	func() teal.Op { return &teal.ShrExpr{} },
	func() teal.Op { return &teal.GetBitExpr{} },
	func() teal.Op { return &teal.SetBitExpr{} },
	func() teal.Op { return &teal.GtxnsasExpr{} },
	func() teal.Op { return &teal.DigExpr{} },
	func() teal.Op { return &teal.BminusExpr{} },
	func() teal.Op { return &teal.BmulExpr{} },
	func() teal.Op { return &teal.BdivExpr{} },
	func() teal.Op { return &teal.BplusExpr{} },
	func() teal.Op { return &teal.GaidExpr{} },
	func() teal.Op { return &teal.GaidsExpr{} },
	func() teal.Op { return &teal.LoadsExpr{} },
	func() teal.Op { return &teal.StoresExpr{} },
	func() teal.Op { return &teal.Dup2Expr{} },
	func() teal.Op { return &teal.SubstringExpr{} },
	func() teal.Op { return &teal.DivwExpr{} },
	func() teal.Op { return &teal.SelectExpr{} },
	func() teal.Op { return &teal.BgteqExpr{} },
	func() teal.Op { return &teal.BGtExpr{} },
	func() teal.Op { return &teal.BytesLeExpr{} },
	func() teal.Op { return &teal.BytesGeExpr{} },
	func() teal.Op { return &teal.BytesEqExpr{} },
	func() teal.Op { return &teal.BytesNeqExpr{} },
	func() teal.Op { return &teal.BytesModuloExpr{} },
	func() teal.Op { return &teal.BytesBitOrExpr{} },
	func() teal.Op { return &teal.BytesBitAndExpr{} },
	func() teal.Op { return &teal.BsqrtExpr{} },
	func() teal.Op { return &teal.GitxnaExpr{} },
	func() teal.Op { return &teal.AppGlobalDelExpr{} },
	func() teal.Op { return &teal.BltExpr{} },
	func() teal.Op { return &teal.BandExpr{} },
	func() teal.Op { return &teal.BytesBitXorExpr{} },
	func() teal.Op { return &teal.BytesBitNotExpr{} },
	func() teal.Op { return &teal.BytesZeroExpr{} },
	func() teal.Op { return &teal.AppOptedInExpr{} },
}

// The ready-made instructions, with the type each of them stands for.
var builderSingles = []struct {
	op    teal.Op
	type_ string
}{
	{teal.Err, "ErrExpr"},
	{teal.Sha3256, "Sha3256Expr"},
	{teal.Sha256, "Sha256Expr"},
	{teal.Keccak256, "Keccak256Expr"},
	{teal.Sha512256, "Sha512256Expr"},
	{teal.ED25519Verify, "ED25519VerifyExpr"},
	{teal.PlusOp, "PlusExpr"},
	{teal.MinusOp, "MinusExpr"},
	{teal.Div, "DivExpr"},
	{teal.Mul, "MulExpr"},
	{teal.Lt, "LtExpr"},
	{teal.Gt, "GtExpr"},
	{teal.Le, "LtEqExpr"},
	{teal.Ge, "GtEqExpr"},
	{teal.And, "AndExpr"},
	{teal.Or, "OrExpr"},
	{teal.Eq, "EqExpr"},
	{teal.Neq, "NeqExpr"},
	{teal.Not, "NotExpr"},
	{teal.Len, "LenExpr"},
	{teal.Itob, "ItobExpr"},
	{teal.Btoi, "BtoiExpr"},
	{teal.Modulo, "ModExpr"},
	{teal.BitOr, "BitOrExpr"},
	{teal.BitAnd, "BitAndExpr"},
	{teal.BitXor, "BitXorExpr"},
	{teal.BitNot, "BitNotExpr"},
	{teal.Mulw, "MulwExpr"},
	{teal.Addw, "AddwExpr"},
	{teal.DivModw, "DivModwExpr"},
	{teal.Intc0, "Intc0Expr"},
	{teal.Intc1, "Intc1Expr"},
	{teal.Intc2, "Intc2Expr"},
	{teal.Intc3, "Intc3Expr"},
	{teal.Bytec0, "Bytec0Expr"},
	{teal.Bytec1, "Bytec1Expr"},
	{teal.Bytec2, "Bytec2Expr"},
	{teal.Bytec3, "Bytec3Expr"},
	{teal.Arg0, "Arg0Expr"},
	{teal.Arg1, "Arg1Expr"},
	{teal.Arg2, "Arg2Expr"},
	{teal.Arg3, "Arg3Expr"},
	{teal.BoxGet, "BoxGetExpr"},
	{teal.BoxPut, "BoxPutExpr"},
	{teal.BoxDel, "BoxDelExpr"},
	{teal.BoxLen, "BoxLenExpr"},
	{teal.BoxCreate, "BoxCreateExpr"},
	{teal.BoxReplace, "BoxReplaceExpr"},
	{teal.BoxExtract, "BoxExtractExpr"},
	{teal.AppLocalGet, "AppLocalGetExpr"},
	{teal.AppLocalPut, "AppLocalPutExpr"},
	{teal.AppGlobalPut, "AppGlobalPutExpr"},
	{teal.AppGlobalGet, "AppGlobalGetExpr"},
	{teal.AppGlobalGetEx, "AppGlobalGetExExpr"},
	{teal.AppLocalGetEx, "AppLocalGetExExpr"},
	{teal.AppLocalDel, "AppLocalDelExpr"},
	{teal.RetSub, "RetSubExpr"},
	{teal.Return, "ReturnExpr"},
	{teal.Assert, "AssertExpr"},
	{teal.Dup, "DupExpr"},
	{teal.Extract16Bits, "ExtractUint16Expr"},
	{teal.Extract32Bits, "ExtractUint32Expr"},
	{teal.Extract64Bits, "Extract64BitsExpr"},
	{teal.Replace3, "Replace3Expr"},
	{teal.Ed25519VerifyBare, "Ed25519VerifyBareExpr"},
	{teal.BitLen, "BitLenExpr"},
	{teal.Expw, "ExpwExpr"},
	{teal.Args, "ArgsExpr"},
	{teal.Gloadss, "GloadssExpr"},
	{teal.SetByte, "SetByteExpr"},
	{teal.Concat, "ConcatExpr"},
	{teal.ItxnBegin, "ItxnBeginExpr"},
	{teal.ItxnSubmit, "ItxnSubmitExpr"},
	{teal.Pop, "PopExpr"},
	{teal.Swap, "SwapExpr"},
	{teal.Sqrt, "SqrtExpr"},
	{teal.Balance, "BalanceExpr"},
	{teal.Exp, "ExpExpr"},
	{teal.Log, "LogExpr"},
	{teal.Extract3, "Extract3Expr"},
	{teal.ExtractUint64, "ExtractUint64Expr"},
	{teal.ItxnNext, "ItxnNextExpr"},
	{teal.MinBalanceOp, "MinBalanceExpr"},
	{teal.Bzero, "BzeroExpr"},
	{teal.GetByte, "GetByteExpr"},
	{teal.Substring3, "Substring3Expr"},
	{teal.ShiftLeft, "ShlExpr"},
	{teal.ShiftRight, "ShrExpr"},
	{teal.GetBit, "GetBitExpr"},
	{teal.SetBit, "SetBitExpr"},
	{teal.BytesMinus, "BminusExpr"},
	{teal.BytesMul, "BmulExpr"},
	{teal.BytesDiv, "BdivExpr"},
	{teal.BytesPlus, "BplusExpr"},
	{teal.Gaids, "GaidsExpr"},
	{teal.Loads, "LoadsExpr"},
	{teal.Stores, "StoresExpr"},
	{teal.Dup2, "Dup2Expr"},
	{teal.Divw, "DivwExpr"},
	{teal.Select, "SelectExpr"},
	{teal.Bgteq, "BgteqExpr"},
	{teal.BytesGt, "BGtExpr"},
	{teal.BytesLe, "BytesLeExpr"},
	{teal.BytesGe, "BytesGeExpr"},
	{teal.BytesEq, "BytesEqExpr"},
	{teal.BytesNeq, "BytesNeqExpr"},
	{teal.BytesModulo, "BytesModuloExpr"},
	{teal.BytesBitOr, "BytesBitOrExpr"},
	{teal.BytesBitAnd, "BytesBitAndExpr"},
	{teal.Bsqrt, "BsqrtExpr"},
	{teal.AppGlobalDel, "AppGlobalDelExpr"},
	{teal.BytesLt, "BltExpr"},
	{teal.Band, "BandExpr"},
	{teal.BytesBitXor, "BytesBitXorExpr"},
	{teal.BytesBitNot, "BytesBitNotExpr"},
	{teal.BytesZero, "BytesZeroExpr"},
	{teal.AppOptedIn, "AppOptedInExpr"},
}
