package vh

import (
	"vh/vx"

	urn "github.com/leodido/go-urn"
)

// C03: RFC 2141 mode accepts exactly the RFC 2141 language

func accepts(mode urn.ParsingMode, r refResult, b []byte) {
	u, err := parse(mode, b)
	if r.ok {
		vx.Reach("input of the language")
		vx.Assert(err == nil && u != nil, "an input of the language is refused")
	} else {
		vx.Reach("input outside the language")
		vx.Assert(err != nil && u == nil, "an input outside the language is accepted")
	}
}

func c03(b []byte) { accepts(m2141, ref2141(b), b) }

func C03_short()       { c03(vx.Bytes(vx.Bound(24, 40))) }
func C03_id()          { c03(idWin("urn:", 27, vx.Bound(8, 14))) }
func C03_long()        { c03(ssWin("URN:ex:", 300, 3)) }
func C03_huge()        { c03(huge()) }
func C03_id_thorough() { c03(idWin("urn:", vx.Fork(vx.Int(0, 31)), 8)) }

// C04: RFC 2141 parse splits the input faithfully

func c04(b []byte) {
	u, err := parse(m2141, b)
	if err != nil || u == nil {
		return
	}
	vx.Reach("accepted input")
	r := ref2141(b)
	vx.Assert(r.ok, "an input without the parts is accepted")
	vx.Assert(u.ID == string(b[r.pos[pID]:r.pos[pID+1]]), "identifier")
	vx.Assert(u.SS == string(b[r.pos[pSS]:r.pos[pSS+1]]), "specific string")
	vx.Assert(u.String() == string(b), "string form")
	vx.Assert(u.RFC() == urn.RFC2141, "kind")
	vx.Assert(!u.IsSCIM() && u.SCIM() == nil, "a RFC 2141 URN is SCIM")
	vx.Assert(u.RComponent() == "" && u.QComponent() == "" && u.FComponent() == "", "a RFC 2141 URN has components")
}

func C04_short() { c04(vx.Bytes(vx.Bound(24, 36))) }
func C04_id()    { c04(idWin("urn:", 27, vx.Bound(8, 14))) }
func C04_long()  { c04(ssWin("URN:ex:", 300, 3)) }
func C04_huge()  { c04(huge()) }

func C03_sizes() { c03(sized(m2141)) }
func C04_sizes() { c04(sized(m2141)) }
