package vh

import (
	"vh/vx"

	urn "github.com/leodido/go-urn"
)

// C01: parsing never crashes or hangs. The engine adds an obligation for every operation which may panic and for every
// path which does not end within the step bound; there is nothing else to assert.

func c01(mode urn.ParsingMode, b []byte) {
	u, err := parse(mode, b)
	if err != nil {
		vx.Reach("refused input")
	}
	if u != nil {
		vx.Reach("accepted input")
	}
}

func C01_2141()       { c01(m2141, vx.Bytes(vx.Bound(26, 44))) }
func C01_scim()       { c01(mSCIM, vx.Bytes(vx.Bound(28, 44))) }
func C01_scim_other() { c01(mSCIM, cat([]byte(scimPre+"param:a"), vx.Bytes(vx.Bound(16, 28)))) }
func C01_8141()       { c01(m8141, vx.Bytes(vx.Bound(22, 36))) }
func C01_8141_rq()    { c01(m8141, cat([]byte("urn:ab:c?+"), vx.Bytes(vx.Bound(16, 26)))) }
func C01_long2141()   { c01(m2141, ssWin("URN:ex:", 300, 4)) }
func C01_longid()     { c01(m2141, idWin("urn:", 27, vx.Bound(10, 16))) }
func C01_longid8141() { c01(m8141, idWin("urn:", 27, vx.Bound(10, 16))) }
func C01_longscim() {
	c01(mSCIM, cat([]byte(scimPre+"schemas:"), fill(300, "aB9z"), vx.BytesMin(3, 3), fill(300, "a0Z"), vx.BytesMin(3, 3), fill(600, mixed), vx.Bytes(3)))
}
func C01_long8141() { c01(m8141, compWin(300, 3)) }

// the entry without an explicit parser, and no input at all
func C01_entry() {
	b := vx.Bytes(vx.Bound(16, 24))
	switch vx.Fork(vx.Int(0, 3)) {
	case 0:
		urn.Parse(b)
	case 1:
		urn.Parse(b, urn.WithParsingMode(urn.Default))
	case 2:
		urn.Parse(nil, urn.WithParsingMode(urn.ParsingMode(vx.Fork(vx.Int(0, 3)))))
	default:
		urn.NewMachine().Parse(nil)
	}
	vx.Reach("returns")
}

func c01json(doc []byte) {
	switch vx.Fork(vx.Int(0, 2)) {
	case 0:
		new(urn.URN).UnmarshalJSON(doc)
	case 1:
		new(urn.URN8141).UnmarshalJSON(doc)
	default:
		new(urn.SCIM).UnmarshalJSON(doc)
	}
	vx.Reach("returns")
}

// plain: n bytes which stand for themselves inside a JSON string
func plain(n int) []byte {
	b := vx.BytesMin(n, n)
	for i := 0; i < n; i++ {
		vx.Assume(b[i] >= 0x20 && b[i] < 0x80 && b[i] != '"' && b[i] != '\\')
	}
	return b[:vx.Int(0, n)]
}

func quoted(b []byte) []byte { return cat([]byte(`"`), b, []byte(`"`)) }

// document: n bytes without backslashes, ASCII only
func document(n int) []byte {
	b := vx.BytesMin(n, n)
	for i := 0; i < n; i++ {
		vx.Assume(b[i] < 0x80 && b[i] != '\\')
	}
	return b[:vx.Int(0, n)]
}

func C01_json()     { c01json(document(vx.Bound(6, 9))) }
func C01_jsonutf()  { c01json(quoted(cat([]byte("urn:ab:"), vx.BytesMin(2, 2), []byte("x")))) }
func C01_jsontext() { c01json(quoted(plain(vx.Bound(14, 18)))) }
func C01_jsonesc() {
	c01json(quoted(cat([]byte(`urn:ab:\`), vx.BytesMin(1, 1), []byte("00"), vx.BytesMin(2, 2), []byte("x"))))
}
func C01_jsonscim() {
	new(urn.SCIM).UnmarshalJSON(cat([]byte(`"`+scimPre), plain(vx.Bound(12, 16)), []byte(`"`)))
	vx.Reach("returns")
}
func C01_json8141() {
	new(urn.URN8141).UnmarshalJSON(cat([]byte(`"urn:ab:c?+`), plain(vx.Bound(10, 14)), []byte(`"`)))
	vx.Reach("returns")
}

// C02: every parse yields exactly one of a URN or an error

func c02(mode urn.ParsingMode, opt bool, b []byte) {
	var m urn.Machine
	var u2 *urn.URN
	var ok bool
	if opt {
		m = urn.NewMachine(urn.WithParsingMode(mode))
		u2, ok = urn.Parse(b, urn.WithParsingMode(mode))
	} else {
		m = urn.NewMachine()
		u2, ok = urn.Parse(b)
	}
	u, err := m.Parse(b)
	if u != nil {
		vx.Reach("a URN")
	} else {
		vx.Reach("no URN")
	}
	vx.Assert((u == nil) != (err == nil), "not exactly one of a URN and an error")
	vx.Assert(vx.Same(m.Error(), err), "the remembered error is not the returned one")
	vx.Assert(ok == (u2 != nil), "boolean form: success without a URN or failure with one")
	vx.Assert(ok == (err == nil), "boolean form: another verdict")
}

func C02_none()    { c02(0, false, vx.Bytes(vx.Bound(20, 30))) }
func C02_default() { c02(urn.Default, true, vx.Bytes(vx.Bound(20, 30))) }
func C02_2141()    { c02(m2141, true, vx.Bytes(vx.Bound(18, 30))) }
func C02_id()      { c02(m2141, true, idWin("urn:", 27, vx.Bound(8, 14))) }
func C02_scim()    { c02(mSCIM, true, vx.Bytes(vx.Bound(26, 34))) }
func C02_scim_other() {
	c02(mSCIM, true, cat([]byte(scimPre+"api:a"), vx.Bytes(vx.Bound(14, 22))))
}
func C02_8141()     { c02(m8141, true, vx.Bytes(vx.Bound(14, 20))) }
func C02_8141_id()  { c02(m8141, true, idWin("urn:", 27, vx.Bound(8, 14))) }
func C02_informal() { c02(m8141, true, cat([]byte("urn:urn-"), vx.Bytes(vx.Bound(9, 14)))) }
func C02_comps()    { c02(m8141, true, cat([]byte("urn:ab:c"), vx.Bytes(vx.Bound(8, 12)))) }
func C02_long()     { c02(m2141, true, ssWin("URN:ex:", 300, 3)) }
func C02_long8141() { c02(m8141, true, compWin(100, 3)) }

// after an earlier parse
func C02_again() {
	mode := urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
	m := urn.NewMachine(urn.WithParsingMode(mode))
	m.Parse(vx.Bytes(vx.Bound(8, 12)))
	u, err := m.Parse(vx.Bytes(vx.Bound(9, 12)))
	vx.Reach("second parse")
	vx.Assert((u == nil) != (err == nil), "second parse: not exactly one of a URN and an error")
	vx.Assert(vx.Same(m.Error(), err), "second parse: the remembered error is not the returned one")
}
