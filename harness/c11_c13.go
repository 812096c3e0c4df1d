package vh

import (
	"vh/vx"

	urn "github.com/leodido/go-urn"
)

// C11: parsing never writes its input and results do not alias it

func own(s string) string { return string([]byte(s)) }

func ownParts(p parts) parts {
	q := p
	q.id, q.ss, q.r, q.q, q.f, q.str = own(p.id), own(p.ss), own(p.r), own(p.q), own(p.f), own(p.str)
	if p.scim != nil {
		q.scim = &urn.SCIM{Type: p.scim.Type, Name: own(p.scim.Name), Other: own(p.scim.Other)}
	}
	return q
}

// full is all of the caller's memory, b the part of it to parse
func c11(mode urn.ParsingMode, full, b []byte) {
	m := urn.NewMachine(urn.WithParsingMode(mode))
	u, err := m.Parse(b)
	if u == nil {
		vx.Reach("refused input")
		k, c := vx.ErrInfo(err)
		k = own(k)
		full = vx.Writable(full)
		for i := range full {
			full[i] ^= 0x15
		}
		k2, c2 := vx.ErrInfo(err)
		vx.Assert(k == k2 && c == c2, "the error changes with the input")
		vx.Assert(vx.Same(m.Error(), err), "the remembered error changes with the input")
		return
	}
	vx.Reach("accepted input")
	p := ownParts(partsOf(u))
	n := u.Normalize()
	nid, nss := own(n.ID), own(n.SS)
	full = vx.Writable(full)
	for i := range full {
		full[i] ^= 0x15
	}
	sameParts(p, partsOf(u), "after overwriting the input")
	vx.Assert(n.ID == nid && n.SS == nss, "after overwriting the input: the normalization taken before")
	n = u.Normalize()
	vx.Assert(n.ID == nid && n.SS == nss, "after overwriting the input: normalization")
}

func c11b(mode urn.ParsingMode, b []byte) {
	b = vx.ReadOnly(b)
	c11(mode, b, b)
}

// spare: the slice to parse is the beginning of a longer one
func c11spare(mode urn.ParsingMode, pre string, n int) {
	full := vx.ReadOnly(cat([]byte(pre), vx.BytesMin(n+2, n+2)))
	c11(mode, full, full[:len(pre)+vx.Int(0, n)])
}

func C11_2141()  { c11b(m2141, vx.Bytes(vx.Bound(20, 26))) }
func C11_hex()   { c11b(m2141, cat([]byte("uRN:aB-:"), vx.Bytes(vx.Bound(14, 20)))) }
func C11_id()    { c11b(m2141, idWin("urn:", 27, vx.Bound(8, 12))) }
func C11_scim()  { c11b(mSCIM, cat([]byte("Urn:ietf:params:scim:"), vx.Bytes(vx.Bound(12, 18)))) }
func C11_scim2() { c11b(mSCIM, cat([]byte(scimPre+"api:b"), vx.Bytes(vx.Bound(12, 18)))) }
func C11_8141()  { c11b(m8141, vx.Bytes(vx.Bound(13, 18))) }
func C11_comps() { c11b(m8141, cat([]byte("urN:Ab:"), vx.Bytes(vx.Bound(8, 12)))) }
func C11_qcomp() { c11b(m8141, cat([]byte("urN:Ab:c?+%aFd?="), vx.Bytes(vx.Bound(7, 12)))) }
func C11_long() {
	c11b(m8141, cat([]byte("uRn:ab-9:"), fill(60, mixed), vx.BytesMin(3, 3), fill(60, mixed), vx.BytesMin(2, 2), fill(60, mixed), vx.Bytes(2)))
}
func C11_spare()      { c11spare(m2141, "urn:a:", vx.Bound(10, 14)) }
func C11_sparescim()  { c11spare(mSCIM, scimPre+"param:", vx.Bound(8, 12)) }
func C11_spare8141()  { c11spare(m8141, "urn:ab:", vx.Bound(9, 12)) }
func C11_spareshort() { c11spare(m2141, "", vx.Bound(12, 14)) }

// the convenience function and the JSON entry points
func C11_entry() {
	b := vx.ReadOnly(vx.Bytes(vx.Bound(14, 18)))
	u, _ := urn.Parse(b, urn.WithParsingMode(urn.ParsingMode(vx.Fork(vx.Int(0, 3)))))
	if u == nil {
		return
	}
	vx.Reach("accepted input")
	p := ownParts(partsOf(u))
	b = vx.Writable(b)
	for i := range b {
		b[i] = 'x'
	}
	sameParts(p, partsOf(u), "after overwriting the input")
}

func C11_json() {
	b := vx.ReadOnly(quoted(plain(vx.Bound(10, 14))))
	var u urn.URN
	var v urn.URN8141
	var w urn.SCIM
	switch vx.Fork(vx.Int(0, 2)) {
	case 0:
		if u.UnmarshalJSON(b) != nil {
			return
		}
		vx.Reach("decoded URN")
		p := ownParts(partsOf(&u))
		b = vx.Writable(b)
		for i := range b {
			b[i] = 'x'
		}
		sameParts(p, partsOf(&u), "after overwriting the document")
	case 1:
		if v.UnmarshalJSON(b) != nil {
			return
		}
		vx.Reach("decoded RFC 8141 URN")
		p := ownParts(partsOf(v.URN))
		b = vx.Writable(b)
		for i := range b {
			b[i] = 'x'
		}
		sameParts(p, partsOf(v.URN), "after overwriting the document")
	default:
		w.UnmarshalJSON(b)
	}
}

// C12: a reused parser behaves like a fresh one

func c12(mode urn.ParsingMode, a, b []byte) {
	m := urn.NewMachine(urn.WithParsingMode(mode))
	u1, e1 := m.Parse(a)
	var p1 parts
	var k1 string
	var c1 int
	if u1 != nil {
		p1 = partsOf(u1)
		vx.Reach("first input accepted")
	} else {
		vx.Reach("first input refused")
	}
	k1, c1 = vx.ErrInfo(e1)
	u2, e2 := m.Parse(b)
	v, ev := parse(mode, b)
	sameOutcome(u2, e2, v, ev, "reused parser")
	vx.Assert(vx.Same(m.Error(), e2), "reused parser: remembered error")
	if u2 != nil {
		vx.Reach("second input accepted")
		vx.Assert(u2.Equal(v), "reused parser: equality")
	} else {
		vx.Reach("second input refused")
	}
	if u1 != nil {
		sameParts(p1, partsOf(u1), "the URN of the first parse")
	}
	k2, c2 := vx.ErrInfo(e1)
	vx.Assert(k1 == k2 && c1 == c2, "the error of the first parse")
}

func C12_2141() { n := vx.Bound(8, 11); c12(m2141, vx.Bytes(n), vx.Bytes(n)) }
func C12_2141ss() {
	n := vx.Bound(6, 9)
	c12(m2141, cat([]byte("URN:a:"), vx.Bytes(n)), cat([]byte("urn:b:"), vx.Bytes(n)))
}
func C12_scim() {
	c12(mSCIM, cat([]byte(scimPre+"api:"), vx.Bytes(vx.Bound(6, 8))), cat([]byte(scimPre+"param:"), vx.Bytes(vx.Bound(6, 8))))
}
func C12_scim2() {
	c12(mSCIM, vx.Bytes(vx.Bound(6, 8)), cat([]byte(scimPre), vx.Bytes(vx.Bound(8, 10))))
}
func C12_8141() { n := vx.Bound(8, 10); c12(m8141, vx.Bytes(n), vx.Bytes(n)) }
func C12_comps() {
	n := vx.Bound(3, 6)
	c12(m8141, cat([]byte("urn:ab:c"), vx.Bytes(n)), cat([]byte("urn:ab:c"), vx.Bytes(n)))
}
func C12_rq() {
	c12(m8141, cat([]byte("urn:ab:c?+r?=q"), vx.Bytes(vx.Bound(2, 4))), cat([]byte("urn:ab:c?+r"), vx.Bytes(vx.Bound(4, 6))))
}

// three parses, some of them of fixed texts
var c12texts = []string{"", "urn:a:b%C3", "urn:urn:x", "URN:ab:c?+r?=q#f", "urn:ietf:params:scim:api:messages:2.0:A%AF", "urn:urn-x:y", "urn:ab:%", "urn:ab:c?=q?="}

func C12_history() {
	mode := urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
	m := urn.NewMachine(urn.WithParsingMode(mode))
	m.Parse([]byte(c12texts[vx.Fork(vx.Int(0, vx.Bound(3, len(c12texts)-1)))]))
	m.Parse([]byte(c12texts[vx.Fork(vx.Int(vx.Bound(3, 1), vx.Bound(6, len(c12texts)-1)))]))
	var b []byte
	switch mode {
	case m2141:
		b = cat([]byte("urn:"), vx.Bytes(vx.Bound(5, 8)))
	case mSCIM:
		b = cat([]byte(scimPre), vx.Bytes(vx.Bound(6, 9)))
	default:
		b = cat([]byte("urn:ab:"), vx.Bytes(vx.Bound(4, 7)))
	}
	u2, e2 := m.Parse(b)
	v, ev := parse(mode, b)
	vx.Reach("third parse")
	sameOutcome(u2, e2, v, ev, "reused parser, third parse")
}

// the caller reads its inputs into one buffer
func c12buffer(mode urn.ParsingMode, pre string, n int) {
	buf := make([]byte, len(pre)+n)
	copy(buf, pre)
	a, b := vx.BytesMin(n, n), vx.BytesMin(n, n)
	k := len(pre) + vx.Int(0, n)
	m := urn.NewMachine(urn.WithParsingMode(mode))
	copy(buf[len(pre):], a)
	u1, e1 := m.Parse(buf[:k])
	var p1 parts
	if u1 != nil {
		vx.Reach("first input accepted")
		p1 = ownParts(partsOf(u1))
	}
	k1, c1 := vx.ErrInfo(e1)
	k1 = own(k1)
	copy(buf[len(pre):], b)
	u2, e2 := m.Parse(buf[:k])
	v, ev := parse(mode, buf[:k])
	sameOutcome(u2, e2, v, ev, "reused parser and buffer")
	vx.Assert(vx.Same(m.Error(), e2), "reused parser and buffer: remembered error")
	if u1 != nil {
		sameParts(p1, partsOf(u1), "the URN of the first parse")
	}
	k2, c2 := vx.ErrInfo(e1)
	vx.Assert(k1 == k2 && c1 == c2, "the error of the first parse")
}

func C12_buffer2141() { c12buffer(m2141, "urn:ab:", vx.Bound(4, 6)) }
func C12_bufferid()   { c12buffer(m2141, "urn:", vx.Bound(5, 7)) }
func C12_bufferscim() { c12buffer(mSCIM, scimPre+"api:", vx.Bound(4, 6)) }
func C12_buffer8141() { c12buffer(m8141, "urn:ab:", vx.Bound(4, 6)) }

// the very same input twice
func C12_same() {
	mode := urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
	b := modeInput(mode, vx.Bound(8, 11))
	m := urn.NewMachine(urn.WithParsingMode(mode))
	u1, e1 := m.Parse(b)
	u2, e2 := m.Parse(b)
	sameOutcome(u1, e1, u2, e2, "the same input twice")
	v, ev := parse(mode, b)
	sameOutcome(u2, e2, v, ev, "the same input twice and once")
	if u2 != nil {
		vx.Reach("accepted twice")
		u2.ID, u2.SS = "other", "text"
		sameParts(partsOf(v), partsOf(u1), "the URN of the first parse after a change of the second")
	}
}

// C13: parsing modes and options select what is parsed

func effective(mode urn.ParsingMode) urn.ParsingMode {
	if mode == urn.Default {
		return m2141
	}
	return mode
}

// modeInput: an input most of which matters in the mode
func modeInput(mode urn.ParsingMode, n int) []byte {
	switch effective(mode) {
	case mSCIM:
		return cat([]byte(scimPre), vx.Bytes(n))
	case m8141:
		return cat([]byte("urn:ab"), vx.Bytes(n-2))
	}
	return cat([]byte("urn:"), vx.Bytes(n))
}

func kindOf(mode urn.ParsingMode) urn.Kind {
	switch effective(mode) {
	case mSCIM:
		return urn.RFC7643
	case m8141:
		return urn.RFC8141
	}
	return urn.RFC2141
}

func checkMode(m urn.Machine, mode urn.ParsingMode, b []byte, what string) {
	u, err := m.Parse(b)
	v, ev := parse(effective(mode), b)
	sameOutcome(u, err, v, ev, what)
	if u != nil {
		vx.Reach(what + ": accepted")
		vx.Assert(u.RFC() == kindOf(mode), what+": kind")
		vx.Assert(u.IsSCIM() == (effective(mode) == mSCIM) && (u.SCIM() != nil) == (effective(mode) == mSCIM), what+": SCIM value")
	}
}

func C13_none() { checkMode(urn.NewMachine(), urn.Default, vx.Bytes(vx.Bound(14, 20)), "no option") }

// options which have nothing to do with the mode
func C13_otheroption() {
	var seen int
	note := func(urn.Machine) { seen++ }
	m := urn.NewMachine(note)
	vx.Assert(seen == 1, "an option is not applied exactly once")
	checkMode(m, urn.Default, vx.Bytes(vx.Bound(13, 18)), "no mode option")
}
func C13_othermode() {
	j := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	note := func(urn.Machine) {}
	var m urn.Machine
	if vx.Fork(vx.Int(0, 1)) == 0 {
		m = urn.NewMachine(note, urn.WithParsingMode(j))
	} else {
		m = urn.NewMachine(urn.WithParsingMode(j), note)
	}
	checkMode(m, j, modeInput(j, vx.Bound(8, 12)), "a mode option and another one")
}

// one option used for two parsers, one of which is changed afterwards
func C13_shared() {
	i := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	j := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	o := urn.WithParsingMode(i)
	m1, m2 := urn.NewMachine(o), urn.NewMachine(o)
	m1.WithParsingMode(j)
	checkMode(m2, i, modeInput(i, vx.Bound(7, 11)), "a parser after a change of another one")
}
func C13_default() {
	checkMode(urn.NewMachine(urn.WithParsingMode(urn.Default)), urn.Default, vx.Bytes(vx.Bound(14, 20)), "Default")
}
func C13_tilde() {
	checkMode(urn.NewMachine(urn.WithParsingMode(urn.Default)), urn.Default, cat([]byte("urn:ab:"), vx.Bytes(vx.Bound(12, 16))), "Default")
}
func C13_two() {
	i := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	j := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	checkMode(urn.NewMachine(urn.WithParsingMode(i), urn.WithParsingMode(j)), j, modeInput(j, vx.Bound(8, 12)), "two options")
}
func C13_short() {
	i := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	j := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	checkMode(urn.NewMachine(urn.WithParsingMode(i), urn.WithParsingMode(j)), j, vx.Bytes(vx.Bound(7, 9)), "two options")
}
func C13_change() {
	i := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	j := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	m := urn.NewMachine(urn.WithParsingMode(i))
	m.WithParsingMode(j)
	checkMode(m, j, modeInput(j, vx.Bound(7, 11)), "changed mode")
}
func C13_changeused() {
	i := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	j := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	m := urn.NewMachine(urn.WithParsingMode(i))
	m.Parse(modeInput(i, vx.Bound(3, 5)))
	m.WithParsingMode(j)
	checkMode(m, j, modeInput(j, vx.Bound(4, 7)), "mode changed after a parse")
}

// what another mode would make of the input, and changing back
func C13_changetexts() {
	i := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	j := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	m := urn.NewMachine(urn.WithParsingMode(i))
	m.Parse([]byte(c12texts[vx.Fork(vx.Int(vx.Bound(3, 0), vx.Bound(5, len(c12texts)-1)))]))
	m.WithParsingMode(j)
	m.Parse([]byte(c12texts[vx.Fork(vx.Int(3, vx.Bound(4, 5)))]))
	m.WithParsingMode(i)
	checkMode(m, i, modeInput(i, vx.Bound(4, 7)), "mode changed and back")
}
func C13_parse() {
	j := urn.ParsingMode(vx.Fork(vx.Int(0, 3)))
	b := modeInput(j, vx.Bound(8, 12))
	u, ok := urn.Parse(b, urn.WithParsingMode(j))
	v, ev := parse(effective(j), b)
	vx.Assert(ok == (ev == nil), "convenience function: verdict")
	vx.Assert((u == nil) == (v == nil), "convenience function: URN or none")
	if u != nil && v != nil {
		vx.Reach("accepted")
		sameParts(partsOf(u), partsOf(v), "convenience function")
		sameNorm(u, v, "convenience function")
	}
}

// many parses of fixed texts before the one compared
func C12_many() {
	mode := urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
	vx.Steps(10000000)
	texts := []string{"", "urn:a:b", "urn:ab:c?=q#f", scimPre + "api:A:b", "urn:ab:%"}
	m := urn.NewMachine(urn.WithParsingMode(mode))
	for i := 0; i < 254; i++ {
		m.Parse([]byte(texts[i%len(texts)]))
	}
	for i := 254; i < 65534; i++ {
		m.Parse(nil)
	}
	pre := "urn:ab:"
	if mode == mSCIM {
		pre = scimPre + "api:"
	}
	for k := vx.Fork(vx.Int(0, 3)); k > 0; k-- {
		m.Parse([]byte(texts[k]))
	}
	b := cat([]byte(pre), vx.Bytes(3))
	u, err := m.Parse(b)
	v, ev := parse(mode, b)
	vx.Reach("compared")
	sameOutcome(u, err, v, ev, "parser used many times")
}

// a large input before or after a small one
func C12_sizes() {
	mode := urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
	small := cat([]byte("urn:ab:"), vx.Bytes(2))
	if mode == mSCIM {
		small = cat([]byte(scimPre+"api:n"), vx.Bytes(2))
	}
	n := 255
	if vx.Fork(vx.Int(0, 1)) == 0 {
		c12(mode, small, sizedN(mode, n, 1))
	} else {
		c12(mode, sizedN(mode, n, 1), small)
	}
}

func C11_sizes() {
	mode := urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
	c11b(mode, sizedN(mode, 1<<vx.Fork(vx.Int(4, 12))-2, 3))
}
