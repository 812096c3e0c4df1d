package vh

import (
	"encoding/json"

	"vh/vx"

	urn "github.com/leodido/go-urn"
)

// C21: no hidden shared state, concurrent use is independent

// several calls parse the same bytes, with separate parsers
func c21parse(mode urn.ParsingMode, b []byte) {
	u, err := parse(mode, b)
	opt := urn.WithParsingMode(mode)
	vx.Shared(b)
	vx.Shared(u)
	vx.Shared(err)
	vx.Shared(opt)
	if u != nil {
		vx.Reach("accepted input")
	} else {
		vx.Reach("refused input")
	}
	vx.Concurrent(func() {
		m := urn.NewMachine(opt)
		v, ev := m.Parse(b)
		sameOutcome(u, err, v, ev, "concurrent parse")
		vx.Assert(vx.Same(m.Error(), ev), "concurrent parse: remembered error")
		w, ok := urn.Parse(b, opt)
		vx.Assert(ok == (err == nil), "concurrent parse with the convenience function: verdict")
		if w != nil && u != nil {
			sameParts(partsOf(u), partsOf(w), "concurrent parse with the convenience function")
		}
	})
}

func C21_parse2141()   { c21parse(m2141, vx.Bytes(vx.Bound(12, 18))) }
func C21_parsehex()    { c21parse(m2141, cat([]byte("urn:A:%C3"), vx.Bytes(vx.Bound(8, 14)))) }
func C21_parsescim()   { c21parse(mSCIM, cat([]byte(scimPre), vx.Bytes(vx.Bound(11, 16)))) }
func C21_parse8141()   { c21parse(m8141, vx.Bytes(vx.Bound(11, 15))) }
func C21_parsecomps()  { c21parse(m8141, cat([]byte("urn:Ab:%cF"), vx.Bytes(vx.Bound(6, 9)))) }
func C21_parseqcomps() { c21parse(m8141, cat([]byte("urn:Ab:c?+r?=q"), vx.Bytes(vx.Bound(5, 8)))) }

// several calls ask about the same URNs
func c21ops(mode urn.ParsingMode, b, bv []byte) {
	u, _ := parse(mode, b)
	v, _ := parse(mode, bv)
	if u == nil || v == nil {
		return
	}
	w, _ := parse(mode, b) // asked alone
	vx.Shared(u)
	vx.Shared(v)
	vx.Reach("accepted input")
	p := partsOf(w)
	e := w.Equal(v)
	doc, _ := w.MarshalJSON()
	vx.Concurrent(func() {
		sameParts(p, partsOf(u), "concurrent use")
		sameNorm(w, u, "concurrent use")
		vx.Assert(u.Equal(v) == e && v.Equal(u) == e, "concurrent use: equality")
		vx.Assert(u.Equal(u) && !u.Equal(nil), "concurrent use: equality with itself")
		d, err := u.MarshalJSON()
		vx.Assert(err == nil && string(d) == string(doc), "concurrent use: JSON")
		if s := u.SCIM(); s != nil {
			vx.Assert(s.String() == w.SCIM().String(), "concurrent use: string form of the SCIM value")
			d, err = s.MarshalJSON()
			d2, _ := w.SCIM().MarshalJSON()
			vx.Assert(err == nil && string(d) == string(d2), "concurrent use: JSON of the SCIM value")
		}
		if mode == m8141 {
			d, err = urn.URN8141{URN: u}.MarshalJSON()
			vx.Assert(err == nil && string(d) == string(doc), "concurrent use: JSON of the RFC 8141 URN")
		}
	})
	sameParts(p, partsOf(u), "after concurrent use")
}

func noAmp(b []byte) []byte {
	for i := 0; i < len(b); i++ {
		vx.Assume(b[i] != '&')
	}
	return b
}

func C21_ops2141() {
	c21ops(m2141, vx.Bytes(vx.Bound(12, 16)), []byte("urn:A:b%C3"))
}
func C21_opshex() {
	c21ops(m2141, cat([]byte("urn:A:"), vx.Bytes(vx.Bound(7, 10))), cat([]byte("urn:a:"), vx.Bytes(vx.Bound(4, 7))))
}
func C21_opsscim() {
	c21ops(mSCIM, cat([]byte(scimPre), vx.Bytes(vx.Bound(10, 14))), []byte("urn:ietf:params:scim:api:A:b%C3"))
}
func C21_ops8141() {
	c21ops(m8141, noAmp(vx.Bytes(vx.Bound(11, 14))), []byte("URN:Ab:c%C3?+r?=q#f"))
}
func C21_opscomps() {
	c21ops(m8141, noAmp(cat([]byte("urn:Ab:c"), vx.Bytes(vx.Bound(6, 8)))), []byte("URN:aB:c%C3?+r?=q#f"))
}

// URNs built by hand
func C21_opshand() {
	u := &urn.URN{ID: handID(3), SS: handSS(vx.Bound(5, 7))}
	w := &urn.URN{ID: u.ID, SS: u.SS}
	v, _ := urn.Parse([]byte("urn:A:b%C3"))
	vx.Shared(u)
	vx.Shared(v)
	vx.Reach("URN built by hand")
	s := w.String()
	e := w.Equal(v)
	n := w.Normalize()
	vx.Concurrent(func() {
		vx.Assert(u.String() == s, "concurrent use: string form")
		vx.Assert(u.Equal(v) == e && v.Equal(u) == e, "concurrent use: equality")
		m := u.Normalize()
		vx.Assert(m.ID == n.ID && m.SS == n.SS && m.String() == n.String(), "concurrent use: normalization")
	})
}

// several calls decode the same document
func C21_json() {
	doc := cat([]byte(`"urn:ab:`), plain(vx.Bound(6, 9)), []byte(`"`))
	vx.Shared(doc)
	vx.Reach("document")
	vx.Concurrent(func() {
		var u urn.URN
		var v urn.URN8141
		eu := json.Unmarshal(doc, &u)
		ev := v.UnmarshalJSON(doc)
		a, ea := parse(m2141, doc[1:len(doc)-1])
		b, eb := parse(m8141, doc[1:len(doc)-1])
		vx.Assert((eu == nil) == (ea == nil) && (ev == nil) == (eb == nil), "concurrent decoding: verdict")
		if eu == nil {
			sameParts(partsOf(&u), partsOf(a), "concurrent decoding")
		}
		if ev == nil {
			sameParts(partsOf(v.URN), partsOf(b), "concurrent decoding (RFC 8141)")
		}
	})
}
func C21_jsonscim() {
	doc := cat([]byte(`"`+scimPre+`api:`), plain(vx.Bound(6, 9)), []byte(`"`))
	vx.Shared(doc)
	vx.Reach("document")
	vx.Concurrent(func() {
		var s urn.SCIM
		es := s.UnmarshalJSON(doc)
		a, ea := parse(mSCIM, doc[1:len(doc)-1])
		vx.Assert((es == nil) == (ea == nil), "concurrent decoding: verdict")
		if es == nil {
			vx.Assert(s.String() == a.SCIM().String(), "concurrent decoding: SCIM value")
		}
	})
}

// what one parser did must not show in the results of another one: the reference does not know of it
func c21after(ma urn.ParsingMode, a []byte, mode urn.ParsingMode, b []byte) {
	ua, ea := parse(ma, a)
	var pa parts
	if ua != nil {
		pa = partsOf(ua)
	}
	ka, ca := vx.ErrInfo(ea)
	u, err := parse(mode, b)
	r := refOf(mode, b)
	vx.Assert((u != nil) == r.ok && (err == nil) == r.ok, "after another parser: verdict")
	if err != nil {
		vx.Reach("refused input")
		_, c := vx.ErrInfo(err)
		vx.Assert(c == r.col, "after another parser: column of the error")
	}
	if u != nil {
		vx.Reach("accepted input")
		vx.Assert(u.ID == string(b[r.pos[pID]:r.pos[pID+1]]), "after another parser: identifier")
		vx.Assert(u.SS == string(b[r.pos[pSS]:r.pos[pSS+1]]), "after another parser: specific string")
		str := string(b)
		if mode == m8141 {
			str = dropHash(b)
		}
		vx.Assert(u.String() == str, "after another parser: string form")
		n := u.Normalize()
		vx.Assert(n.ID == lowerAll(u.ID) && n.SS == lowerTriples(u.SS), "after another parser: normalization")
		vx.Assert(u.Equal(u), "after another parser: equality")
		vx.Assert(u.RFC() == kindOf(mode), "after another parser: kind")
	}
	if ua != nil {
		sameParts(pa, partsOf(ua), "the other parser's URN")
	}
	k, c := vx.ErrInfo(ea)
	vx.Assert(k == ka && c == ca, "the other parser's error")
}

func C21_after2141() { n := vx.Bound(8, 10); c21after(m2141, vx.Bytes(n), m2141, vx.Bytes(n)) }
func C21_afterss() {
	n := vx.Bound(6, 8)
	c21after(m2141, cat([]byte("urn:A:"), vx.Bytes(n)), m2141, cat([]byte("URN:a:"), vx.Bytes(n)))
}
func C21_afterscim() {
	c21after(mSCIM, cat([]byte(scimPre+"api:"), vx.Bytes(5)), mSCIM, cat([]byte(scimPre), vx.Bytes(vx.Bound(9, 11))))
}
func C21_after8141() {
	n := vx.Bound(5, 7)
	c21after(m8141, cat([]byte("urn:ab:"), vx.Bytes(n)), m8141, cat([]byte("urn:ab:"), vx.Bytes(n)))
}
func C21_aftermodes() {
	n := vx.Bound(5, 7)
	c21after(m8141, cat([]byte("urn:ab:"), vx.Bytes(n)), m2141, cat([]byte("urn:ab:"), vx.Bytes(n)))
}
