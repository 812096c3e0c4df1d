package vh

import (
	"encoding/json"

	"vh/vx"

	urn "github.com/leodido/go-urn"
)

// expect is doc: the harness expects it to be the JSON form of s (the engine decides whether to make use of that)
func expect(doc []byte, s string) []byte { return []byte(vx.Cut(string(doc), `"`+s+`"`)) }

func dropHash(b []byte) string {
	if b[len(b)-1] == '#' {
		return string(b[:len(b)-1])
	}
	return string(b)
}

// C14: JSON round-trip of URNs

func c14round(variant int, b []byte) {
	u, _ := parse(m2141, b)
	if u == nil {
		return
	}
	vx.Reach("accepted input")
	var doc []byte
	var err error
	switch variant {
	case 1:
		doc, err = json.Marshal(u)
	case 2:
		doc, err = json.Marshal(*u)
	default:
		doc, err = u.MarshalJSON()
	}
	vx.Assert(err == nil, "an accepted URN cannot be marshalled")
	doc = expect(doc, string(b))
	var v urn.URN
	if variant == 0 {
		err = v.UnmarshalJSON(doc)
	} else {
		err = json.Unmarshal(doc, &v)
	}
	vx.Assert(err == nil, "a marshalled URN cannot be unmarshalled")
	vx.Assert(v.ID == u.ID, "round trip: identifier")
	vx.Assert(v.SS == u.SS, "round trip: specific string")
	vx.Assert(v.String() == u.String(), "round trip: string form")
	sameNorm(u, &v, "round trip")
}

// decode asserts that decoding doc is parsing the string it stands for
func c14decode(doc []byte) {
	var s string
	isString := json.Unmarshal(doc, &s) == nil && doc[len(doc)-1] == '"'
	v, _ := parse(m2141, []byte("urn:Before:a%C3"))
	before := ownParts(partsOf(v))
	var err error
	if vx.Fork(vx.Int(0, 1)) == 0 {
		err = json.Unmarshal(doc, v)
	} else {
		err = v.UnmarshalJSON(doc)
	}
	if !isString {
		vx.Assert(err != nil, "something else than a string is decoded")
		sameParts(before, partsOf(v), "target of a failed decoding")
		return
	}
	u, ep := parse(m2141, []byte(s))
	vx.Assert((err == nil) == (ep == nil), "decoding and parsing have different verdicts")
	if err == nil && ep == nil {
		vx.Reach("decoded")
		sameParts(partsOf(u), partsOf(v), "decoded")
		sameNorm(u, v, "decoded")
	} else {
		vx.Reach("not decoded")
		sameParts(before, partsOf(v), "target of a failed decoding")
	}
}

func C14_round()     { c14round(0, vx.Bytes(vx.Bound(15, 22))) }
func C14_variants()  { c14round(vx.Fork(vx.Int(1, 2)), vx.Bytes(vx.Bound(13, 18))) }
func C14_roundhex()  { c14round(0, cat([]byte("URN:aB-:"), vx.Bytes(vx.Bound(12, 18)))) }
func C14_roundlong() { c14round(0, ssWin("uRn:Ab:", 100, 3)) }
func C14_text()      { c14decode(quoted(plain(vx.Bound(12, 16)))) }
func C14_texthex()   { c14decode(cat([]byte(`"urn:a:`), plain(vx.Bound(10, 14)), []byte(`"`))) }
func C14_doc()       { c14decode(cat([]byte(`"urn:a:b`), document(vx.Bound(4, 6)), []byte(`"`))) }
func C14_nostring()  { c14decode(cat([]byte("n"), document(vx.Bound(4, 6)), []byte("\""))) }
func C14_esc() {
	c14decode(cat([]byte(`"urn:a:\`), vx.BytesMin(1, 1), []byte("00"), vx.BytesMin(2, 2), []byte(`x"`)))
}
func C14_utf() { c14decode(cat([]byte(`"urn:a:`), vx.BytesMin(2, 2), []byte(`x"`))) }

// compText: n characters which may be in a component of a RFC 8141 URN, with or without ampersands
func compText(n int, amp bool) []byte {
	b := vx.BytesMin(n, n)
	for i := 0; i < n; i++ {
		vx.Assume(isSSS(b[i]) || b[i] == '~' || amp && b[i] == '&')
	}
	return b
}

// C15: JSON round-trip of RFC 8141 URNs keeps all components

func c15round(variant int, amp bool, b []byte) {
	u, _ := parse(m8141, b)
	if u == nil {
		return
	}
	if !amp { // ampersands grow in JSON: they have harnesses of their own
		for i := 0; i < len(b); i++ {
			vx.Assume(b[i] != '&')
		}
	}
	vx.Reach("accepted input")
	w := urn.URN8141{URN: u}
	var doc []byte
	var err error
	switch variant {
	case 1:
		doc, err = json.Marshal(w)
	case 2:
		doc, err = json.Marshal(&w)
	default:
		doc, err = w.MarshalJSON()
	}
	vx.Assert(err == nil, "an accepted URN cannot be marshalled")
	if !amp {
		doc = expect(doc, dropHash(b))
	}
	var v urn.URN8141
	if variant == 0 {
		err = v.UnmarshalJSON(doc)
	} else {
		err = json.Unmarshal(doc, &v)
	}
	vx.Assert(err == nil && v.URN != nil, "a marshalled URN cannot be unmarshalled")
	vx.Assert(v.ID == u.ID, "round trip: identifier")
	vx.Assert(v.SS == u.SS, "round trip: specific string")
	vx.Assert(v.RComponent() == u.RComponent(), "round trip: r-component")
	vx.Assert(v.QComponent() == u.QComponent(), "round trip: q-component")
	vx.Assert(v.FComponent() == u.FComponent(), "round trip: f-component")
	vx.Assert(v.String() == u.String(), "round trip: string form")
	vx.Assert(v.RFC() == urn.RFC8141, "round trip: kind")
}

func c15decode(doc []byte) {
	var s string
	isString := json.Unmarshal(doc, &s) == nil && doc[len(doc)-1] == '"'
	w, _ := parse(m8141, []byte("urn:Before:a%C3?+R?=Q#F"))
	v := urn.URN8141{URN: w}
	before := ownParts(partsOf(w))
	var err error
	if vx.Fork(vx.Int(0, 1)) == 0 {
		err = json.Unmarshal(doc, &v)
	} else {
		err = v.UnmarshalJSON(doc)
	}
	if !isString {
		vx.Assert(err != nil, "something else than a string is decoded")
		vx.Assert(v.URN == w, "target of a failed decoding is replaced")
		sameParts(before, partsOf(w), "target of a failed decoding")
		return
	}
	u, ep := parse(m8141, []byte(s))
	vx.Assert((err == nil) == (ep == nil), "decoding and parsing have different verdicts")
	if err == nil && ep == nil {
		vx.Reach("decoded")
		sameParts(partsOf(u), partsOf(v.URN), "decoded")
		sameNorm(u, v.URN, "decoded")
	} else {
		vx.Reach("not decoded")
		vx.Assert(v.URN == w, "target of a failed decoding is replaced")
		sameParts(before, partsOf(w), "target of a failed decoding")
	}
}

func C15_round()     { c15round(0, false, vx.Bytes(vx.Bound(13, 17))) }
func C15_variants()  { c15round(vx.Fork(vx.Int(1, 2)), false, vx.Bytes(vx.Bound(11, 14))) }
func C15_roundcomp() { c15round(0, false, cat([]byte("urN:aB:"), vx.Bytes(vx.Bound(7, 10)))) }
func C15_roundrq()   { c15round(0, false, cat([]byte("urN:aB:c?+R%aF"), vx.Bytes(vx.Bound(6, 10)))) }
func C15_roundlong() {
	c15round(0, false, cat([]byte("uRn:ab-9:"), fill(40, mixed), vx.BytesMin(2, 2), fill(40, mixed), []byte("?="), fill(40, mixed), vx.BytesMin(2, 2), fill(20, mixed), vx.Bytes(2)))
}
func C15_roundamp() {
	n := vx.Bound(2, 3)
	c15round(vx.Fork(vx.Int(0, 1)), true, cat([]byte("urN:aB:c&"), compText(n, false), []byte("?+"), compText(n, false), []byte("&/?=q&?%aF"), compText(n, false), []byte("#&"), compText(n, false)))
}
func C15_roundamp2() {
	c15round(vx.Fork(vx.Int(0, 1)), true, cat([]byte("urN:aB:"), compText(1, true), []byte("?+x&#"), compText(vx.Bound(0, 1), true)))
}
func C15_text()     { c15decode(quoted(plain(vx.Bound(11, 14)))) }
func C15_textcomp() { c15decode(cat([]byte(`"urn:aB:c`), plain(vx.Bound(8, 11)), []byte(`"`))) }
func C15_textrq()   { c15decode(cat([]byte(`"urn:aB:c?+r`), plain(vx.Bound(7, 11)), []byte(`"`))) }
func C15_doc()      { c15decode(cat([]byte(`"urn:ab:c`), document(vx.Bound(4, 6)), []byte(`"`))) }
func C15_nostring() { c15decode(cat([]byte("n"), document(vx.Bound(4, 6)), []byte("\""))) }
func C15_esc() {
	c15decode(cat([]byte(`"urn:ab:c\`), vx.BytesMin(1, 1), []byte("002"), vx.BytesMin(1, 1), []byte(`x"`)))
}
func C15_utf() { c15decode(cat([]byte(`"urn:ab:`), vx.BytesMin(2, 2), []byte(`x"`))) }

// C16: JSON round-trip of SCIM values

func c16round(variant int, b []byte) {
	u, _ := parse(mSCIM, b)
	if u == nil {
		return
	}
	vx.Reach("accepted input")
	s := u.SCIM()
	vx.Assert(s != nil, "no SCIM value")
	var doc []byte
	var err error
	switch variant {
	case 1:
		doc, err = json.Marshal(s)
	case 2:
		doc, err = json.Marshal(*s)
	default:
		doc, err = s.MarshalJSON()
	}
	vx.Assert(err == nil, "an accepted SCIM value cannot be marshalled")
	doc = expect(doc, "urn:"+string(b[4:]))
	var v urn.SCIM
	if variant == 0 {
		err = v.UnmarshalJSON(doc)
	} else {
		err = json.Unmarshal(doc, &v)
	}
	vx.Assert(err == nil, "a marshalled SCIM value cannot be unmarshalled")
	vx.Assert(v.Type == s.Type, "round trip: type")
	vx.Assert(v.Name == s.Name, "round trip: name")
	vx.Assert(v.Other == s.Other, "round trip: other part")
	vx.Assert(v.String() == s.String(), "round trip: string form")
}

func c16decode(doc []byte) {
	var s string
	isString := json.Unmarshal(doc, &s) == nil && doc[len(doc)-1] == '"'
	w, _ := parse(mSCIM, []byte(scimPre+"api:Before:a%C3"))
	v := *w.SCIM()
	before := v
	var err error
	if vx.Fork(vx.Int(0, 1)) == 0 {
		err = json.Unmarshal(doc, &v)
	} else {
		err = v.UnmarshalJSON(doc)
	}
	same := v.Type == before.Type && v.Name == before.Name && v.Other == before.Other && v.String() == before.String()
	if !isString {
		vx.Assert(err != nil, "something else than a string is decoded")
		vx.Assert(same, "target of a failed decoding")
		return
	}
	u, ep := parse(mSCIM, []byte(s))
	vx.Assert((err == nil) == (ep == nil), "decoding and parsing have different verdicts")
	if err == nil && ep == nil {
		vx.Reach("decoded")
		p := u.SCIM()
		vx.Assert(v.Type == p.Type, "decoded: type")
		vx.Assert(v.Name == p.Name, "decoded: name")
		vx.Assert(v.Other == p.Other, "decoded: other part")
		vx.Assert(v.String() == p.String(), "decoded: string form")
	} else {
		vx.Reach("not decoded")
		vx.Assert(same, "target of a failed decoding")
	}
}

func C16_round() {
	c16round(0, cat(vx.BytesMin(3, 3), []byte(":ietf:params:scim:"), vx.Bytes(vx.Bound(12, 17))))
}
func C16_variants() {
	c16round(vx.Fork(vx.Int(1, 2)), cat(vx.BytesMin(3, 3), []byte(":ietf:params:scim:"), vx.Bytes(vx.Bound(10, 13))))
}
func C16_roundoth() {
	c16round(0, cat([]byte("URN:ietf:params:scim:param:Ab"), vx.Bytes(vx.Bound(9, 13))))
}
func C16_roundlong() {
	c16round(0, cat([]byte(scimPre+"schemas:"), fill(100, "aB9z"), vx.BytesMin(3, 3), fill(100, "a0Z"), []byte(":"), fill(200, mixed), vx.Bytes(3)))
}
func C16_short() { c16decode(quoted(plain(vx.Bound(12, 24)))) }
func C16_text() {
	c16decode(cat([]byte(`"`+scimPre), plain(vx.Bound(11, 15)), []byte(`"`)))
}
func C16_other() {
	c16decode(cat([]byte(`"`+scimPre+"api:A"), plain(vx.Bound(9, 13)), []byte(`"`)))
}
func C16_doc()      { c16decode(cat([]byte(`"`+scimPre+"api:A"), document(vx.Bound(4, 6)), []byte(`"`))) }
func C16_nostring() { c16decode(cat([]byte("n"), document(vx.Bound(4, 6)), []byte("\""))) }
func C16_esc() {
	c16decode(cat([]byte(`"`+scimPre+`api:A:b\`), vx.BytesMin(1, 1), []byte("00"), vx.BytesMin(2, 2), []byte(`x"`)))
}
func C16_utf() { c16decode(cat([]byte(`"`+scimPre+`api:A:`), vx.BytesMin(2, 2), []byte(`x"`))) }

func C14_sizes() { c14round(0, sized(m2141)) }
func C15_sizes() { c15round(0, false, sizedN(m8141, 1<<vx.Fork(vx.Int(4, 12))-2, vx.Bound(2, 4))) }
func C16_sizes() { c16round(0, sized(mSCIM)) }
