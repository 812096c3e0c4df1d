package vh

import (
	"vh/vx"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C05: SCIM mode accepts exactly the RFC 7643 SCIM URNs

func c05(b []byte) { accepts(mSCIM, refSCIM(b), b) }

func C05_short() { c05(vx.Bytes(vx.Bound(28, 40))) }
func C05_type()  { c05(cat([]byte("uRN:ietf:params:scim:"), vx.Bytes(vx.Bound(16, 24)))) }
func C05_other() { c05(cat([]byte(scimPre+"param:a"), vx.Bytes(vx.Bound(14, 24)))) }
func C05_long() {
	c05(cat([]byte(scimPre+"schemas:"), fill(300, "aB9z"), vx.BytesMin(3, 3), fill(300, "a0Z"), vx.BytesMin(3, 3), fill(600, mixed), vx.Bytes(3)))
}

// C06: SCIM parse exposes type, name and other part faithfully

func c06(b []byte) {
	u, err := parse(mSCIM, b)
	if err != nil || u == nil {
		return
	}
	vx.Reach("accepted input")
	r := refSCIM(b)
	vx.Assert(r.ok, "an input without the parts is accepted")
	vx.Assert(u.RFC() == urn.RFC7643 && u.IsSCIM(), "not said to be SCIM")
	s := u.SCIM()
	vx.Assert(s != nil, "no SCIM value")
	typ := string(b[r.pos[pR]:r.pos[pR+1]])
	name := string(b[r.pos[pQ]:r.pos[pQ+1]])
	other := string(b[r.pos[pF]:r.pos[pF+1]])
	vx.Assert(s.Type.String() == typ, "SCIM type")
	vx.Assert((s.Type == scimschema.Schemas) == (typ == "schemas"), "type schemas")
	vx.Assert((s.Type == scimschema.API) == (typ == "api"), "type api")
	vx.Assert((s.Type == scimschema.Param) == (typ == "param"), "type param")
	vx.Assert(s.Name == name, "SCIM name")
	vx.Assert(s.Other == other, "SCIM other part")
	vx.Assert(s.String() == "urn:"+string(b[4:]), "string form of the SCIM value")
	vx.Assert(u.ID == "ietf:params:scim", "identifier")
	vx.Assert(u.SS == string(b[21:]), "specific string")
	vx.Assert(u.String() == string(b), "string form")
	vx.Assert(u.RComponent() == "" && u.QComponent() == "" && u.FComponent() == "", "a SCIM URN has components")
}

func C06_type()  { c06(cat(vx.Bytes(3), []byte(":ietf:params:scim:"), vx.Bytes(vx.Bound(14, 20)))) }
func C06_other() { c06(cat([]byte(scimPre+"schemas:a"), vx.Bytes(vx.Bound(14, 22)))) }
func C06_long() {
	c06(cat([]byte(scimPre+"api:"), fill(300, "aB9z"), vx.BytesMin(3, 3), fill(300, "a0Z"), vx.BytesMin(3, 3), fill(600, mixed), vx.Bytes(3)))
}

func C05_huge() { c05(hugeOf(scimPre + "api:n:")) }
func C06_huge() { c06(hugeOf(scimPre + "api:n:")) }

func C05_sizes() { c05(sized(mSCIM)) }
func C06_sizes() { c06(sized(mSCIM)) }
