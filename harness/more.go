package vh

import (
	"encoding/json"
	"strings"

	"vh/vx"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// the convenience function, used before with other options: nothing of an earlier call is left in a later one
func convenience(n int) {
	i := urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
	texts := []string{"urn:a:b%C3", "urn:ab:c%C3?=q#f", scimPre + "api:A:b", "urn:ab:%", ""}
	u1, _ := urn.Parse([]byte(texts[vx.Fork(vx.Int(0, len(texts)-1))]), urn.WithParsingMode(i))
	var p1 parts
	if u1 != nil {
		p1 = ownParts(partsOf(u1))
	}
	j := urn.Default
	b := []byte(nil)
	var u *urn.URN
	var ok bool
	switch vx.Fork(vx.Int(0, 3)) {
	case 0:
		b = modeInput(i, n)
		u, ok = urn.Parse(b)
	case 1:
		b = modeInput(i, n)
		u, ok = urn.Parse(b, func(urn.Machine) {})
	case 2:
		b = modeInput(i, n)
		u, ok = urn.Parse(b, urn.WithParsingMode(urn.Default))
	default:
		j = urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
		b = modeInput(j, n)
		u, ok = urn.Parse(b, urn.WithParsingMode(i), urn.WithParsingMode(j))
	}
	v, ev := parse(effective(j), b)
	vx.Assert(ok == (ev == nil), "convenience function used before: verdict")
	vx.Assert((u == nil) == (v == nil), "convenience function used before: URN or none")
	if u != nil && v != nil {
		vx.Reach("accepted")
		sameParts(partsOf(u), partsOf(v), "convenience function used before")
		sameNorm(u, v, "convenience function used before")
	}
	if u1 != nil {
		sameParts(p1, partsOf(u1), "the URN of the first call")
	}
}

func C13_convenience() { convenience(vx.Bound(4, 7)) }
func C12_convenience() { convenience(vx.Bound(3, 6)) }

// longText: the inside of a JSON string which is long, has characters of several bytes, and an arbitrary one
func longText() []byte {
	units := []string{"\xc3\xa9", `\u00e9`, "\xff", `\ud83d\ude00`}
	u, k := vx.Fork(vx.Int(0, len(units)-1)), vx.Fork(vx.Int(0, vx.Bound(4, 5)))
	vx.Assume(u == 0 || k < 3)
	n := []int{12, 24, 48, 96, 192, 750}[k]
	return cat([]byte([]string{"", "urn:ab:", scimPre + "api:A:"}[vx.Fork(vx.Int(0, 2))]), []byte(strings.Repeat(units[u], n)), plain(1))
}

func C01_jsonlong() { vx.Steps(200000); c01json(quoted(longText())) }
func C14_long()     { vx.Steps(200000); c14decode(quoted(longText())) }
func C15_long()     { vx.Steps(200000); c15decode(quoted(longText())) }
func C16_long()     { vx.Steps(200000); c16decode(quoted(longText())) }

// special: a character which JSON or a quoting function escapes, or an arbitrary other one
func special() string {
	c := vx.Int(0, 127)
	if c < 0x20 || c == '"' || c == '\\' || c == '<' || c == '>' || c == '&' || c == 0x7f {
		c = vx.Fork(c)
	}
	return string([]byte{byte(c)})
}

func c25escape(v interface{ MarshalJSON() ([]byte, error) }, want string) {
	doc, err := v.MarshalJSON()
	vx.Assert(err == nil, "a value built by hand cannot be marshalled")
	var s string
	err = json.Unmarshal(doc, &s)
	vx.Assert(err == nil && s == want, "the JSON form of a value built by hand is not its string form")
	vx.Reach("marshalled")
}

func C25_escape() {
	c := special()
	switch vx.Fork(vx.Int(0, 3)) {
	case 0:
		c25escape(urn.URN{ID: "a", SS: "\xc3\xa9" + c + "x"}, "urn:a:\xc3\xa9"+c+"x")
	case 1:
		c25escape(urn.URN{ID: "a" + c + "b", SS: "b"}, "urn:a"+c+"b:b")
	case 2:
		c25escape(urn.URN8141{URN: &urn.URN{ID: "ab", SS: "c" + c}}, "urn:ab:c"+c)
	default:
		c25escape(urn.SCIM{Type: scimschema.API, Name: c, Other: c + "\xe2\x80\xa8"}, scimPre+"api:"+c+":"+c+"\xe2\x80\xa8")
	}
}
