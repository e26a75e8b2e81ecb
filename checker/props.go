package main

import "strings"

// The rules, one per property.

func cat(ls ...[]Inst) []Inst {
	var out []Inst
	seen := map[string]bool{}
	for _, l := range ls {
		for _, in := range l {
			if !seen[in.name] {
				seen[in.name] = true
				out = append(out, in)
			}
		}
	}
	return out
}

// isVar: variable-length integers have their own properties.
func isVar(n string) bool {
	return strings.Contains(n, "arint") || strings.Contains(n, "VarInt") || strings.Contains(n, "CompactU16")
}

func in(name string, parts ...string) bool {
	for _, p := range parts {
		if strings.Contains(name, p) {
			return true
		}
	}
	return false
}

func reading(ks map[string]bool) []Inst {
	return cat(decOpInsts(ks, nil), decShapeInsts(ks, allDecShapes(), nil))
}

func writing(ks map[string]bool) []Inst {
	return cat(encOpInsts(ks, nil), encShapeInsts(ks, allEncShapes(), nil))
}

var kFormat = kinds(kValue, kAccept, kReject, kCursor, kBytes, kPanic, kStale)

// format: both directions of an encoding.
func format(enc int) func() []Inst {
	return func() []Inst {
		return cat(
			decOpInsts(kFormat, func(op decOp, e int) bool { return e == enc && in(op.name, "Length", "String", "ByteSlice") }),
			encOpInsts(kFormat, func(op encOp, e int) bool { return e == enc && in(op.name, "Length", "String", "Bytes") }),
			decShapeInsts(kFormat, allDecShapes(), func(sh decShape, e int) bool { return e == enc }),
			encShapeInsts(kFormat, allEncShapes(), func(sh encShape, e int) bool { return e == enc }),
			safeInsts(enc))
	}
}

// shaped: both directions of the shapes with certain names.
func shaped(names ...string) func() []Inst {
	return func() []Inst {
		return cat(
			decShapeInsts(kFormat, allDecShapes(), func(sh decShape, e int) bool { return in(sh.typ, names...) }),
			encShapeInsts(kFormat, allEncShapes(), func(sh encShape, e int) bool { return in(sh.typ, names...) }))
	}
}

// isCompact: the compact-u16 operations.
func isCompact(n string) bool { return strings.Contains(n, "CompactU16") }

// with adds the contracts of a property.
func with(id string, l []Inst) []Inst { return cat(l, contractInsts(id, nil)) }

// traced are instances with tracing on.
func traced(l []Inst) []Inst {
	var out []Inst
	for _, in := range l {
		in.name = "traced:" + in.name
		in.trace = true
		out = append(out, in)
	}
	return out
}

// thin keeps the instances a property that repeats others needs.
func thin(l []Inst, n int) []Inst {
	var out []Inst
	for i, in := range l {
		if i%n != 0 {
			in.deep = true
		}
		out = append(out, in)
	}
	return out
}

func init() {
	props = []Prop{
		{"C01", "no read or decode reaches a panic", func() []Inst { return with("C01", reading(kinds(kPanic))) }},
		{"C02", "0 <= position <= length, position + remaining = length, reads move forward by what they consume, failed fixed-width reads and peeks do not move", func() []Inst { return with("C02", reading(kinds(kCursor))) }},
		{"C03", "each read operation equals the specification of its bytes", func() []Inst {
			return with("C03", decOpInsts(kinds(kValue, kAccept, kReject, kCursor, kPanic), func(op decOp, e int) bool { return !isVar(op.name) }))
		}},
		{"C04", "each write operation hands the writer the specified bytes", func() []Inst {
			return with("C04", encOpInsts(kinds(kBytes, kAccept, kReject, kPanic), func(op encOp, e int) bool { return !isVar(op.name) }))
		}},
		{"C05", "every allocation and every loop of a read is bounded by the input", func() []Inst { return reading(kinds(kAlloc)) }},
		{"C06", "no read stores to the input; slices that share it have no spare capacity", func() []Inst { return reading(kinds(kMut, kAlias)) }},
		{"C07", "Written equals the sum of the counts the writer returned on every outcome; byte counts equal the length of the marshalled form", func() []Inst { return with("C07", writing(kinds(kCount))) }},
		{"C08", "an outcome with a failed write or an unrepresentable length is an error; no write follows a failed one", func() []Inst { return writing(kinds(kErr, kAccept)) }},
		{"C09", "an outcome whose input is not valid is an error", func() []Inst { return with("C09", reading(kinds(kAccept))) }},
		{"C10", "no encode reaches a panic or stores to the value", func() []Inst { return writing(kinds(kPanic, kMut)) }},
		{"C11", "encode and decode equal the Bin format", format(encBin)},
		{"C12", "encode and decode equal the compact-u16 format", format(encCompact)},
		{"C13", "encode and decode equal the Borsh format", format(encBorsh)},
		{"C14", "tags select the same bytes in both directions", shaped("zzOrder", "zzSkip", "zzSizeof", "zzExt", "zzTag")},
		{"C15", "optional values equal the specification", shaped("zzOpt", "zzCOpt")},
		{"C16", "compact-u16 reads and writes equal the canonical form", func() []Inst {
			return with("C16", cat(
				decOpInsts(kFormat, func(op decOp, e int) bool { return isCompact(op.name) || e == encCompact && op.name == "ReadLength" }),
				encOpInsts(kFormat, func(op encOp, e int) bool { return isCompact(op.name) || e == encCompact && op.name == "WriteLength" })))
		}},
		{"C17", "variable-length reads and writes equal LEB128", func() []Inst {
			return with("C17", cat(
				decOpInsts(kFormat, func(op decOp, e int) bool {
					return isVar(op.name) && !isCompact(op.name) || e == encBin && op.name == "ReadLength"
				}),
				encOpInsts(kFormat, func(op encOp, e int) bool {
					return isVar(op.name) && !isCompact(op.name) || e == encBin && op.name == "WriteLength"
				}),
				shaped("zzLibVar", "zzSlices", "zzMapU")()))
		}},
		{"C18", "Borsh maps are sorted and NaN is refused", func() []Inst {
			return with("C18", cat(
				decOpInsts(kFormat, func(op decOp, e int) bool { return e == encBorsh && in(op.name, "Float") }),
				encOpInsts(kFormat, func(op encOp, e int) bool { return e == encBorsh && in(op.name, "Float") }),
				only(encBorsh, "zzMap", "zzSliceF", "zzPrims", "zzOrder", "zzEnumMap", "zzOptMap", "zzOptF", "zzUserMap", "zzUserKey", "zzSliceMap", "zzF32", "zzF64", "zzNamed")))
		}},
		{"C19", "Borsh enums carry the index and the selected payload", func() []Inst { return with("C19", only(encBorsh, "zzEnum")) }},
		{"C20", "variant definitions and variant decoding equal the ID and the payload read one after the other", func() []Inst { return with("C20", nil) }},
		{"C21", "every form of a 128-bit integer denotes Hi*2^64+Lo", func() []Inst {
			return with("C21", cat(
				decOpInsts(kFormat, func(op decOp, e int) bool { return in(op.name, "128") }),
				encOpInsts(kFormat, func(op encOp, e int) bool { return in(op.name, "128") }),
				shaped("zzLib", "zzOptBig")()))
		}},
		{"C22", "no operation writes to package-level state", func() []Inst {
			return cat(globalInsts(), contractInsts("C22", nil), reading(kinds(kGlobal)), writing(kinds(kGlobal)), allContractsK(kinds(kGlobal)))
		}},
		{"C23", "with tracing on every operation equals the same specification", func() []Inst {
			return traced(cat(reading(kAll), writing(kAll), allContracts()))
		}},
		{"C24", "custom methods are called once, in place, and their errors returned", func() []Inst {
			return with("C24", shaped("zzUser", "zzLib", "zzOptUser", "zzOptLib", "zzCOptUser", "zzSizeofUser", "zzMapU")())
		}},
		{"C25", "unusable targets are refused; a decoded target equals the specification of the input alone", func() []Inst {
			return with("C25", decShapeInsts(kinds(kValue, kStale), allDecShapes(), nil))
		}},
		{"C26", "entry points equal the encoder and decoder of the encoding they name", func() []Inst { return with("C26", nil) }},
		{"C27", "discriminators equal sha256(namespace:name)[:8]", func() []Inst {
			return with("C27", decOpInsts(kFormat, func(op decOp, e int) bool { return in(op.name, "TypeID", "Discriminator") }))
		}},
		{"C28", "the result of a case conversion consists of the words of the text, whole characters in order, each in its case", func() []Inst { return caseInsts() }},
		{"C29", "JSON wrappers equal the specification of their text", func() []Inst { return with("C29", nil) }},
		{"C30", "the recorder keeps and returns what was written", func() []Inst { return with("C30", nil) }},
	}
}

var kAll = kinds(kPanic, kCursor, kAccept, kReject, kValue, kMut, kAlias, kBytes, kCount, kErr, kStale, kHold)

// only: both directions of the shapes with certain names in one encoding.
func only(enc int, names ...string) []Inst {
	return cat(
		decShapeInsts(kFormat, allDecShapes(), func(sh decShape, e int) bool { return e == enc && in(sh.typ, names...) }),
		encShapeInsts(kFormat, allEncShapes(), func(sh encShape, e int) bool { return e == enc && in(sh.typ, names...) }))
}

func allContracts() []Inst { return allContractsK(nil) }

func allContractsK(ks map[string]bool) []Inst {
	ids := map[string]bool{}
	for _, c := range contracts {
		for _, p := range c.props {
			ids[p] = true
		}
	}
	var out []Inst
	for _, p := range sortedKeys(ids) {
		out = append(out, contractInsts(p, ks)...)
	}
	return cat(out)
}
