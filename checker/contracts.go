package main

// The table of contracts.

var contracts = []contract{
	{fn: "zzHSetPosition", props: []string{"C02"}},
	{fn: "zzHHasRemaining", props: []string{"C02"}},
	{fn: "zzHRead", props: []string{"C02", "C03", "C09"}},
	{fn: "zzHDecodeCompactU16", props: []string{"C16"}},
	{fn: "zzHCompactU16ByteReader", props: []string{"C16"}},
	{fn: "zzHEncodeCompactU16", props: []string{"C16"}},
	{fn: "zzHEncodeCompactU16Appends", props: []string{"C16"}},
	{fn: "zzHTypeIDBytes", props: []string{"C27", "C20"}, lens: map[string]int64{"b": 8}},
	{fn: "zzHTypeIDShort", props: []string{"C27", "C20"}, lens: map[string]int64{"b": 3}},
	{fn: "zzHTypeIDEqual", props: []string{"C27", "C20"}},
	{fn: "zzHTypeIDNumbers", props: []string{"C20"}},
	{fn: "zzHTypeIDUvarint", props: []string{"C20"}},
	{fn: "zzHTypeIDUvarintSmall", props: []string{"C20"}},
	{fn: "zzHSighash", props: []string{"C27"}},
	{fn: "zzHSighashInstruction", props: []string{"C27"}, opaque: []string{"ToRustSnakeCase", "ToPascalCase"}},
	{fn: "zzHSighashAccount", props: []string{"C27"}, opaque: []string{"ToRustSnakeCase", "ToPascalCase"}},
	{fn: "zzHSnakeForSighash", props: []string{"C27"}, opaque: []string{"ToRustSnakeCase", "ToPascalCase"}},
	{fn: "zzHDecodeNil", props: []string{"C25", "C01"}},
	{fn: "zzHDecodeNilPointer", props: []string{"C25", "C01"}},
	{fn: "zzHDecodeNilPrimitive", props: []string{"C25", "C01"}},
	{fn: "zzHDecodeNilUser", props: []string{"C25", "C01"}},
	{fn: "zzHDecodeValue", props: []string{"C25", "C01"}},
	{fn: "zzHDecodePP", props: []string{"C25"}},
	{fn: "zzHPredicates", props: []string{"C26"}},
	{fn: "zzHConstructors", props: []string{"C26"}},
	{fn: "zzHBadDecoder", props: []string{"C26"}, refuse: true},
	{fn: "zzHBadEncoder", props: []string{"C26"}, refuse: true},
	{fn: "zzHReset", props: []string{"C26"}},
	{fn: "zzHResetOrder", props: []string{"C26"}},
	{fn: "zzHEntryPrims", props: []string{"C26", "C07"}},
	{fn: "zzHEntryOrder", props: []string{"C26", "C07"}},
	{fn: "zzHEntryOpt", props: []string{"C26", "C07"}},
	{fn: "zzHEntryUser", props: []string{"C26", "C07"}},
	{fn: "zzHEntryBytes", props: []string{"C26", "C07"}},
	{fn: "zzHEntryString", props: []string{"C26", "C07"}},
	{fn: "zzHEntryU16s", props: []string{"C26", "C07"}},
	{fn: "zzHEntryF", props: []string{"C26", "C07"}},
	{fn: "zzHEntryInt", props: []string{"C26", "C07"}},
	{fn: "zzHEntryBad", props: []string{"C26", "C07"}},
	{fn: "zzHMustCount", props: []string{"C07"}},
	{fn: "zzHMustCountBad", props: []string{"C07"}, refuse: true},
	{fn: "zzHUnmarshal", props: []string{"C26"}},
	{fn: "zzHUnmarshalStr", props: []string{"C26"}},
	{fn: "zzH128Bytes", props: []string{"C21"}},
	{fn: "zzH128Big", props: []string{"C21"}},
	{fn: "zzH128Text", props: []string{"C21"}},
	{fn: "zzH128JSON", props: []string{"C21"}},
	{fn: "zzH128Int", props: []string{"C21"}},
	{fn: "zzH128IntText", props: []string{"C21"}},
	{fn: "zzH128IntJSON", props: []string{"C21"}},
	{fn: "zzH128Parse", props: []string{"C21"}},
	{fn: "zzHReverse", props: []string{"C21"}, lens: map[string]int64{"b": 16}},
	{fn: "zzH128Direct", props: []string{"C21"}},
	{fn: "zzH128IntDirect", props: []string{"C21"}},
	{fn: "zzH128FloatDirect", props: []string{"C21"}},
	{fn: "zzH128Hex", props: []string{"C21"}},
	{fn: "zzHVariantEmpty", props: []string{"C20"}},
	{fn: "zzHVariantMany", props: []string{"C20"}},
	{fn: "zzHVariantTooMany", props: []string{"C20"}, refuse: true},
	{fn: "zzHReverse", props: []string{"C21"}, lens: map[string]int64{"b": 5}},
	{fn: "zzHRecorder", props: []string{"C30"}},
	{fn: "zzHRecorderReuse", props: []string{"C30"}},
	{fn: "zzHRecorderGrow", props: []string{"C30"}},
	{fn: "zzHRecorderOne", props: []string{"C30"}},
	{fn: "zzHMarshalTwice", props: []string{"C22", "C26"}},
	{fn: "zzHRecorderEmpty", props: []string{"C30"}},
	{fn: "zzHEncoderWrite", props: []string{"C04", "C07"}},
	{fn: "zzHVariantU8", props: []string{"C20"}},
	{fn: "zzHVariantU32", props: []string{"C20"}},
	{fn: "zzHVariantUvarint", props: []string{"C20"}},
	{fn: "zzHVariantAnchor", props: []string{"C20"}},
	{fn: "zzHVariantNone", props: []string{"C20"}},
	{fn: "zzHVariantNames", props: []string{"C20"}},
	{fn: "zzHVariantUnknownName", props: []string{"C20"}, refuse: true},
	{fn: "zzHVariantNoneMany", props: []string{"C20"}, refuse: true},
	{fn: "zzHTypeSize", props: []string{"C03", "C04"}},
	{fn: "zzHTypeIDDefault", props: []string{"C20"}},
	{fn: "zzHIfaceHolds", props: []string{"C01", "C25"}},
	{fn: "zzHIfacePtr", props: []string{"C25"}},
	{fn: "zzHJSONInt64", props: []string{"C29"}},
	{fn: "zzHJSONInt64Forms", props: []string{"C29"}},
	{fn: "zzHJSONInt64Any", props: []string{"C29"}},
	{fn: "zzHJSONUint64", props: []string{"C29"}},
	{fn: "zzHJSONUint64Forms", props: []string{"C29"}},
	{fn: "zzHJSONUint64Any", props: []string{"C29"}},
	{fn: "zzHJSONFloat64Any", props: []string{"C29"}},
	{fn: "zzHJSONBoolAny", props: []string{"C29"}},
	{fn: "zzHJSONHex", props: []string{"C29"}},
	{fn: "zzHJSONHexAny", props: []string{"C29"}},
}

func init() {
	for _, k := range []string{"U8", "U16", "U32", "U64", "I8", "I16", "I32", "I64", "F32", "F64", "Bool", "Str", "Bytes", "U32s", "Arr", "Map", "St"} {
		contracts = append(contracts, contract{fn: "zzHCustom" + k, props: []string{"C24"}}, contract{fn: "zzHCustomDec" + k, props: []string{"C24"}})
	}
}
