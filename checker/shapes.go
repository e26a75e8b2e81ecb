package main

// The types over which the rules are stated.

type shape struct {
	typ  string
	lens [][]int64 // lengths of the slices and maps inside; nil: any length
	open bool      // with lens: any length as well
	encs []int
	dec  bool // decoding only
	enc  bool // encoding only
	deep bool
}

var upTo2 = [][]int64{{0}, {1}, {2}}

func shapes() []shape {
	var out []shape
	plain := func(ts ...string) {
		for _, t := range ts {
			out = append(out, shape{typ: t})
		}
	}
	coll := func(ts ...string) {
		for _, t := range ts {
			out = append(out, shape{typ: t, lens: upTo2, open: true})
		}
	}
	fixed := func(t string, ls ...[]int64) { out = append(out, shape{typ: t, lens: ls}) }
	plain("zzPrims", "zzOrder", "zzSkip", "zzNest", "zzArrs", "zzArrs2", "zzArrs3", "zzExt", "zzExtS", "zzExtP", "zzExtO", "zzExtAll",
		"zzUsers", "zzUserLast", "zzUserPtr", "zzUserInts", "zzUserNest", "zzUserSkip",
		"zzOpt", "zzCOpt", "zzOptLast", "zzCOptLast", "zzOptStr", "zzOptSlice", "zzOptStruct", "zzOptBig", "zzOptUser", "zzOptUserPtr", "zzOptArr", "zzOptBool",
		"zzOptF", "zzOptPP", "zzOptInner", "zzOptBoth", "zzOptLib", "zzCOptKinds", "zzCOptUser", "zzCOptSlice",
		"zzTagLeak", "zzTagLeakS", "zzTagPtr", "zzTagNamed", "zzTagSkipLast", "zzTagUnexp", "zzTagEmpties", "zzTagEmb", "zzTagEmbPtr",
		"[]uint8", "[]uint16", "[]uint32", "[]uint64", "string", "uint16", "*uint32", "bool", "zzSizeof", "zzSizeofI", "zzSizeofB",
		"zzSizeofU32", "zzSizeofU64", "zzSizeofI8", "zzSizeofI16", "zzSizeof2", "zzSizeofOpt", "zzSizeofNamed", "zzSizeofCase",
		"zzNamed", "zzNamedSlices", "zzNamedSlices2", "zzTwoSlices", "zzTwoStr", "zzPtrs", "zzPtrStr", "zzPtrLast", "zzPtrNest", "zzIface",
		"zzLib", "zzLibBig", "zzLibBigF", "zzLibBigP", "zzArrs4", "zzArrSkip", "zzPtrSkip", "zzLibVar", "zzLibVar32", "zzLibHex", "zzLibStr", "zzLibArr", "zzLibPtr",
		"uint8", "int8", "int16", "int32", "int64", "uint64", "float32", "float64", "zzU8", "zzI64", "zzStr", "zzBool", "zzBytes", "zzArr",
		"zzUser", "zzUserInt", "*zzUser", "**uint16", "*zzInner", "[3]uint16", "[4]uint8", "[2]zzInner", "[2]zzUser", "[2]zzUserInt",
		"Uint128", "Int64", "Uint64", "JSONFloat64", "HexBytes", "SafeString", "Bool", "Varuint32", "EmptyVariant", "zzTagEmpty")
	coll("zzSliceI8", "zzSliceI16", "zzSliceBool", "zzSliceF64", "zzSliceF32", "zzSliceI32", "zzSliceI64", "zzSliceStr", "zzSliceInner", "zzSlicePtr", "zzSlicePU",
		"zzUserSlice", "zzUserIntSlice", "zzUserPtrs", "zzSliceB", "zzOptSliceS", "zzOptElems", "[]string", "[]zzUser", "[]zzUserInt", "[]zzInner", "[]int8",
		"zzSizeofUser", "zzSizeofI32", "zzSliceOpt", "zzLibSlice", "zzSliceSkip")
	for _, t := range []string{"zzSliceArr", "zzSliceArr16"} {
		fixed(t, upTo2...)
		out = append(out, shape{typ: t, dec: true}, shape{typ: t, enc: true, encs: []int{encBin, encCompact}})
	}
	fixed("zzNamedSlices3", []int64{1}, []int64{2})
	fixed("zzSlice2", []int64{2, 1, 2})
	fixed("zzArrSlice", []int64{1, 2})
	fixed("zzSizeof", []int64{0}, []int64{2})
	fixed("zzSizeofI", []int64{2, 1})
	fixed("zzSizeofSlices", []int64{1, 2}, []int64{2, 1, 0})
	fixed("zzSizeofStrs", []int64{1, 2, 0}, []int64{2, 1, 0, 1})
	fixed("zzSizeofMapV", []int64{2, 1, 0})
	fixed("zzSizeofPtrS", []int64{1, 2})
	fixed("zzSizeofNest", []int64{1, 1}, []int64{2, 0, 1})
	for _, t := range []string{"zzMapS", "zzMapU", "zzMapI", "zzMapI64", "zzMapU64", "zzMapNamed", "zzMapNamedS", "zzMapStr", "zzMapPtr", "zzMapVF", "zzMapOpt", "zzOptMap",
		"zzTagMap", "zzUserMap", "zzMapSkip", "zzMapSet", "zzMapSetS", "zzUserKey", "zzMapBool", "zzMapArr", "map[string]uint16", "map[uint8]zzUser"} {
		fixed(t, upTo2...)
	}
	for _, t := range []string{"zzMapU", "zzMapS", "zzMapSlice", "map[uint8]zzUser", "map[string]uint16"} {
		out = append(out, shape{typ: t, dec: true})
	}
	fixed("zzMapF", upTo2...)
	for _, t := range []string{"zzMapK8", "zzMapK16", "zzMapK32", "zzMapKU16", "zzMapKU32", "zzMapKF32"} {
		fixed(t, []int64{2})
	}
	fixed("zzMapEmptyKey", []int64{0}, []int64{1})
	fixed("zzMapU", []int64{3})
	fixed("zzMapI", []int64{3})
	fixed("zzMapSlice", []int64{1, 2}, []int64{2, 1, 0})
	fixed("zzMapMap", []int64{1, 1}, []int64{1, 2})
	borsh := []int{encBorsh}
	for _, t := range []string{"zzEnumA", "zzEnumB", "zzEnumOne", "zzEnumNone", "zzEnumUnexp", "zzEnumField", "zzEnumOpt", "zzEnumPtr", "zzEnumArr"} {
		out = append(out, shape{typ: t, encs: borsh})
	}
	plain("zzEnumSimple")
	out = append(out, shape{typ: "zzEnumC", encs: borsh, lens: upTo2, open: true})
	out = append(out, shape{typ: "zzEnumMap", encs: borsh, lens: upTo2})
	out = append(out, shape{typ: "zzEnumNest", encs: borsh, lens: upTo2})
	out = append(out, shape{typ: "zzEnumSlice", encs: borsh, lens: upTo2})
	return out
}

func allDecShapes() []decShape {
	var out []decShape
	for _, s := range shapes() {
		if s.enc {
			continue
		}
		if s.lens == nil || s.open {
			out = append(out, decShape{typ: s.typ, encs: s.encs, deep: s.deep})
		}
		for _, l := range s.lens {
			out = append(out, decShape{typ: s.typ, encs: s.encs, force: l, deep: s.deep})
		}
	}
	return out
}

func allEncShapes() []encShape {
	var out []encShape
	for _, s := range shapes() {
		if s.dec {
			continue
		}
		if s.lens == nil || s.open {
			out = append(out, encShape{typ: s.typ, encs: s.encs, deep: s.deep})
		}
		for _, l := range s.lens {
			out = append(out, encShape{typ: s.typ, encs: s.encs, lens: l, deep: s.deep})
		}
	}
	return out
}
