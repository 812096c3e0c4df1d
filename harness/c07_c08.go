package vh

import (
	"vh/vx"

	urn "github.com/leodido/go-urn"
)

// C07: RFC 8141 mode accepts exactly the documented RFC 8141 language

func c07(b []byte) { accepts(m8141, ref8141(b), b) }

func C07_short() { c07(vx.Bytes(vx.Bound(17, 24))) }
func C07_id()    { c07(idWin("urn:", 27, vx.Bound(8, 14))) }
func C07_informal() {
	c07(cat([]byte("urn:"), vx.BytesMin(5, 5), fill(20, "0123456789"), vx.Bytes(vx.Bound(10, 14))))
}
func C07_comps() { c07(cat([]byte("urn:ab:"), vx.Bytes(vx.Bound(12, 18)))) }
func C07_rcomp() { c07(cat([]byte("urn:ab:c?+"), vx.Bytes(vx.Bound(11, 18)))) }
func C07_qcomp() { c07(cat([]byte("urn:ab:c?+r/?=q"), vx.Bytes(vx.Bound(11, 18)))) }
func C07_fcomp() { c07(cat([]byte("urn:ab:c?=q#"), vx.Bytes(vx.Bound(14, 24)))) }
func C07_long()  { c07(compWin(300, 3)) }

// C08: RFC 8141 parse splits NSS, r-, q- and f-components faithfully

func c08(b []byte) {
	u, err := parse(m8141, b)
	if err != nil || u == nil {
		return
	}
	vx.Reach("accepted input")
	r := ref8141(b)
	vx.Assert(r.ok, "an input without the parts is accepted")
	vx.Assert(u.ID == string(b[r.pos[pID]:r.pos[pID+1]]), "identifier")
	vx.Assert(u.SS == string(b[r.pos[pSS]:r.pos[pSS+1]]), "specific string")
	vx.Assert(u.RComponent() == string(b[r.pos[pR]:r.pos[pR+1]]), "r-component")
	vx.Assert(u.QComponent() == string(b[r.pos[pQ]:r.pos[pQ+1]]), "q-component")
	vx.Assert(u.FComponent() == string(b[r.pos[pF]:r.pos[pF+1]]), "f-component")
	str := string(b)
	if b[len(b)-1] == '#' {
		str = string(b[:len(b)-1])
	}
	vx.Assert(u.String() == str, "string form")
	vx.Assert(u.RFC() == urn.RFC8141, "kind")
	vx.Assert(!u.IsSCIM() && u.SCIM() == nil, "a RFC 8141 URN is SCIM")
}

func C08_short() { c08(vx.Bytes(vx.Bound(18, 26))) }
func C08_id()    { c08(idWin("urn:", 27, vx.Bound(8, 14))) }
func C08_comps() { c08(cat([]byte("urn:ab:"), vx.Bytes(vx.Bound(12, 18)))) }
func C08_rcomp() { c08(cat([]byte("urn:ab:c?+"), vx.Bytes(vx.Bound(12, 18)))) }
func C08_qcomp() { c08(cat([]byte("urn:ab:c?="), vx.Bytes(vx.Bound(12, 18)))) }
func C08_fcomp() { c08(cat([]byte("urn:ab:c?+r?=q"), vx.Bytes(vx.Bound(12, 18)))) }
func C08_long()  { c08(compWin(300, 3)) }

func C07_huge()  { c07(hugeOf("urn:ex:")) }
func C07_huger() { c07(hugeOf("urn:ex:a?+")) }
func C07_hugeq() { c07(hugeOf("urn:ex:a?+b?=")) }
func C08_huge()  { c08(hugeOf("urn:ex:")) }
func C08_huger() { c08(hugeOf("urn:ex:a?+")) }
func C08_hugeq() { c08(hugeOf("urn:ex:a?+b?=")) }
func C08_hugef() { c08(hugeOf("urn:ex:a?+b?=c#")) }

func C07_sizes() { c07(sized(m8141)) }
func C08_sizes() { c08(sized(m8141)) }
