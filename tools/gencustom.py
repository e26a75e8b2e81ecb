#!/usr/bin/env python3
"""Writes checker/shapes/custom.txt: contracts on custom methods over every kind of type."""
kinds = [("U8","uint8"),("U16","uint16"),("U32","uint32"),("U64","uint64"),("I8","int8"),("I16","int16"),("I32","int32"),("I64","int64"),
 ("F32","float32"),("F64","float64"),("Bool","bool"),("Str","string"),("Bytes","[]uint8"),("U32s","[]uint32"),("Arr","[2]uint8"),("Map","map[uint8]uint8"),("St","struct{ A uint16 }")]
out = ["package bin\n\n// Generated by tools/gencustom.py.\n"]
out.append('''
func zzPrefix(e Encoding, n byte) []byte {
	if e == EncodingBorsh {
		return []byte{n, 0, 0, 0}
	}
	return []byte{n}
}

func zzSame(e Encoding, v interface{}, want []byte) bool {
	b, err := zzMarshal(e, v)
	if err != nil || len(b) != len(want) {
		return false
	}
	for i := range want {
		if b[i] != want[i] {
			return false
		}
	}
	return true
}

// zzTakes: the bytes decode into v, and a change of any custom byte makes it fail.
func zzTakes(e Encoding, v interface{}, data []byte) bool {
	d := NewDecoderWithEncoding(data, e)
	return d.Decode(v) == nil && d.Remaining() == 0
}
''')
for n, k in kinds:
    T = "zzC" + n
    key = n not in ("F32","F64","Bytes","U32s","Map")
    out.append(f'''
type {T} {k}

func (z {T}) MarshalWithEncoder(e *Encoder) error {{ return e.WriteByte(0x5A) }}

func (z *{T}) UnmarshalWithDecoder(d *Decoder) error {{
	b, err := d.ReadByte()
	if err == nil && b != 0x5A {{
		err = zzErrUser
	}}
	return err
}}

func zzHCustom{n}(e Encoding, a, b {T}) string {{
	if !zzSame(e, a, []byte{{0x5A}}) {{
		return "{k}: a value with a custom method is encoded otherwise"
	}}
	if !zzSame(e, &a, []byte{{0x5A}}) {{
		return "{k}: a pointer to a value with a custom method is encoded otherwise"
	}}
	if !zzSame(e, []{T}{{a, b}}, append(zzPrefix(e, 2), 0x5A, 0x5A)) {{
		return "{k}: slice elements with a custom method are encoded otherwise"
	}}
	if !zzSame(e, [2]{T}{{a, b}}, []byte{{0x5A, 0x5A}}) {{
		return "{k}: array elements with a custom method are encoded otherwise"
	}}
	if !zzSame(e, []*{T}{{&a, &b}}, append(zzPrefix(e, 2), 0x5A, 0x5A)) {{
		return "{k}: pointer elements with a custom method are encoded otherwise"
	}}
	if !zzSame(e, struct {{
		X {T}
		Y *{T}
		Z uint8
	}}{{a, &b, 3}}, []byte{{0x5A, 0x5A, 3}}) {{
		return "{k}: fields with a custom method are encoded otherwise"
	}}
	if !zzSame(e, map[uint8]{T}{{7: a}}, append(zzPrefix(e, 1), 7, 0x5A)) {{
		return "{k}: map values with a custom method are encoded otherwise"
	}}''')
    if key:
        out.append(f'''
	if !zzSame(e, map[{T}]uint8{{a: 9}}, append(zzPrefix(e, 1), 0x5A, 9)) {{
		return "{k}: map keys with a custom method are encoded otherwise"
	}}''')
    out.append(f'''
	return ""
}}

func zzHCustomDec{n}(e Encoding, a {T}, m byte) string {{
	ok := m == 0x5A
	if zzTakes(e, &a, []byte{{m}}) != ok {{
		return "{k}: a value with a custom method is decoded otherwise"
	}}
	var s []{T}
	if zzTakes(e, &s, append(zzPrefix(e, 2), 0x5A, m)) != ok || ok && len(s) != 2 {{
		return "{k}: slice elements with a custom method are decoded otherwise"
	}}
	var r [2]{T}
	if zzTakes(e, &r, []byte{{0x5A, m}}) != ok {{
		return "{k}: array elements with a custom method are decoded otherwise"
	}}
	var p []*{T}
	if zzTakes(e, &p, append(zzPrefix(e, 2), 0x5A, m)) != ok || ok && (len(p) != 2 || p[0] == nil || p[1] == nil) {{
		return "{k}: pointer elements with a custom method are decoded otherwise"
	}}
	var t struct {{
		X {T}
		Y *{T}
		Z uint8
	}}
	if zzTakes(e, &t, []byte{{0x5A, m, 3}}) != ok || ok && (t.Y == nil || t.Z != 3) {{
		return "{k}: fields with a custom method are decoded otherwise"
	}}
	var v map[uint8]{T}
	if zzTakes(e, &v, append(zzPrefix(e, 1), 7, m)) != ok || ok && len(v) != 1 {{
		return "{k}: map values with a custom method are decoded otherwise"
	}}''')
    if key:
        out.append(f'''
	var w map[{T}]uint8
	if zzTakes(e, &w, append(zzPrefix(e, 1), m, 9)) != ok || ok && len(w) != 1 {{
		return "{k}: map keys with a custom method are decoded otherwise"
	}}''')
    out.append('''
	return ""
}
''')
open("/verif/checker/shapes/custom.txt", "w").write("".join(out))
