package vh

import (
	"vh/vx"

	urn "github.com/leodido/go-urn"
)

// C09: normalization lower-cases the prefix, the NID and hex digits only

func c09(mode urn.ParsingMode, b []byte) {
	u, err := parse(mode, b)
	if err != nil || u == nil {
		return
	}
	vx.Reach("accepted input")
	before := partsOf(u)
	n := u.Normalize()
	id, ss := lowerAll(u.ID), lowerTriples(u.SS)
	vx.Assert(n.ID == id, "normalized identifier")
	vx.Assert(n.SS == ss, "normalized specific string")
	vx.Assert(n.String() == "urn:"+id+":"+ss, "normalized string form")
	vx.Assert(n.RComponent() == "" && n.QComponent() == "" && n.FComponent() == "", "components of a normalized URN")
	sameParts(before, partsOf(u), "the original after normalization")
	n2 := n.Normalize()
	vx.Assert(n2.ID == n.ID && n2.SS == n.SS, "normalizing again: parts")
	vx.Assert(n2.String() == n.String(), "normalizing again: string form")
}

func c09again(mode urn.ParsingMode, b []byte) {
	u, err := parse(mode, b)
	if err != nil || u == nil {
		return
	}
	n := u.Normalize()
	v, err := parse(mode, []byte(n.String()))
	vx.Reach("normalized form parsed")
	vx.Assert(v != nil && err == nil, "the normalized form is refused")
	sameNorm(u, v, "normalization of the parsed normalized form")
}

func C09_2141() { c09(m2141, vx.Bytes(vx.Bound(17, 24))) }
func C09_hex()  { c09(m2141, cat([]byte("uRN:aB-:"), vx.Bytes(vx.Bound(16, 24)))) }
func C09_long() { c09(m2141, ssWin("URN:Ex:", 100, 4)) }
func C09_scim() {
	c09(mSCIM, cat(vx.BytesMin(3, 3), []byte(":ietf:params:scim:param:a"), vx.Bytes(vx.Bound(14, 20))))
}
func C09_8141()  { c09(m8141, vx.Bytes(vx.Bound(13, 17))) }
func C09_comps() { c09(m8141, cat([]byte("urN:Ab:"), vx.Bytes(vx.Bound(9, 12)))) }
func C09_long8141() {
	c09(m8141, cat([]byte("uRn:ab-9:"), fill(100, mixed), vx.BytesMin(3, 3), fill(100, mixed), vx.BytesMin(2, 2), fill(100, mixed), vx.Bytes(3)))
}

func C09_again2141() { c09again(m2141, vx.Bytes(vx.Bound(14, 20))) }
func C09_againhex()  { c09again(m2141, cat([]byte("Urn:A:"), vx.Bytes(vx.Bound(10, 14)))) }
func C09_againscim() {
	c09again(mSCIM, cat([]byte("URN:ietf:params:scim:"), vx.Bytes(vx.Bound(12, 16))))
}
func C09_again8141() { c09again(m8141, vx.Bytes(vx.Bound(12, 16))) }
func C09_againcomps() {
	c09again(m8141, cat([]byte("uRn:aB:"), vx.Bytes(vx.Bound(10, 14))))
}

// C10: equality is exactly RFC lexical equivalence

func equivalent(u, v *urn.URN) bool {
	return lowerAll(u.ID) == lowerAll(v.ID) && lowerTriples(u.SS) == lowerTriples(v.SS)
}

func c10(mu urn.ParsingMode, bu []byte, mv urn.ParsingMode, bv []byte) {
	u, _ := parse(mu, bu)
	if u == nil {
		return
	}
	v, _ := parse(mv, bv)
	if v == nil {
		return
	}
	e := equivalent(u, v)
	if e {
		vx.Reach("equivalent URNs")
	} else {
		vx.Reach("different URNs")
	}
	vx.Assert(u.Equal(v) == e, "equality is not lexical equivalence")
	vx.Assert(v.Equal(u) == e, "equality is not symmetric")
}

func c10self(mode urn.ParsingMode, b []byte) {
	u, _ := parse(mode, b)
	if u == nil {
		return
	}
	vx.Reach("accepted input")
	vx.Assert(u.Equal(u), "not equal to itself")
	vx.Assert(!u.Equal(nil), "equal to nil")
	n := u.Normalize()
	vx.Assert(u.Equal(n), "not equal to its normalization")
	vx.Assert(n.Equal(u), "its normalization is not equal to it")
	h := &urn.URN{ID: u.ID, SS: u.SS}
	vx.Assert(u.Equal(h) && h.Equal(u), "not equal to the same URN built by hand")
	vx.Assert(h.Equal(n) && n.Equal(h), "its normalization is not equal to the same URN built by hand")
}

func C10_2141() { n := vx.Bound(10, 12); c10(m2141, vx.Bytes(n), m2141, vx.Bytes(n)) }
func C10_ss() {
	n := vx.Bound(8, 11)
	c10(m2141, cat([]byte("urn:a:"), vx.Bytes(n)), m2141, cat([]byte("URN:A:"), vx.Bytes(n)))
}
func C10_id() {
	n := vx.Bound(6, 8)
	c10(m2141, cat([]byte("urn:a"), vx.BytesMin(n, n), []byte("b:x")), m2141, cat([]byte("urn:a"), vx.BytesMin(n, n), []byte("B:x")))
}
func C10_8141() {
	n := vx.Bound(7, 9)
	c10(m8141, cat([]byte("urn:ab:"), vx.Bytes(n)), m8141, cat([]byte("urn:AB:"), vx.Bytes(n)))
}
func C10_comps() {
	c10(m8141, cat([]byte("urn:ab:c%aF"), vx.Bytes(vx.Bound(8, 10))), m8141, cat([]byte("urn:ab:C%Af"), vx.Bytes(vx.Bound(8, 10))))
}
func C10_scim() {
	n := vx.Bound(8, 10)
	c10(mSCIM, cat([]byte(scimPre), vx.Bytes(n)), mSCIM, cat([]byte("URN:ietf:params:scim:"), vx.Bytes(n)))
}
func C10_modes() {
	n := vx.Bound(7, 9)
	c10(m2141, cat([]byte("urn:ab:"), vx.Bytes(n)), m8141, cat([]byte("urn:aB:"), vx.Bytes(n)))
}
func C10_self2141() { c10self(m2141, vx.Bytes(vx.Bound(14, 20))) }
func C10_selfhex()  { c10self(m2141, cat([]byte("urn:a:"), vx.Bytes(vx.Bound(14, 20)))) }
func C10_selfscim() {
	c10self(mSCIM, cat([]byte("uRn:ietf:params:scim:api:Ab"), vx.Bytes(vx.Bound(12, 18))))
}
func C10_self8141() { c10self(m8141, vx.Bytes(vx.Bound(14, 18))) }
func C10_long() {
	k := fill(100, mixed)
	c10(m2141, cat([]byte("urn:a:"), k, vx.BytesMin(4, 4), k, vx.Bytes(3)), m2141, cat([]byte("urn:A:"), k, vx.BytesMin(4, 4), k, vx.Bytes(3)))
}

// well-formed parts of URNs built by hand

func handID(n int) string {
	b := vx.BytesMin(1, n)
	for i := 0; i < len(b); i++ {
		vx.Assume(isAlnum(b[i]) || b[i] == '-')
	}
	return string(b)
}

func handSS(n int) string {
	b := vx.BytesMin(1, n)
	for i := 0; i < len(b); i++ {
		vx.Assume(isPath(b[i]) || b[i] == '/')
		if i > 0 && b[i-1] == '%' || i > 1 && b[i-2] == '%' {
			vx.Assume(isAlnum(b[i]))
		}
	}
	if n := len(b); n > 0 {
		vx.Assume(b[n-1] != '%')
		vx.Assume(n < 2 || b[n-2] != '%')
	}
	return string(b)
}

func C10_hand() {
	n := vx.Bound(6, 8)
	u := &urn.URN{ID: handID(3), SS: handSS(n)}
	v := &urn.URN{ID: handID(3), SS: handSS(n)}
	e := equivalent(u, v)
	if e {
		vx.Reach("equivalent URNs")
	} else {
		vx.Reach("different URNs")
	}
	vx.Assert(u.Equal(v) == e, "hand-built: equality is not lexical equivalence")
	vx.Assert(u.Equal(u) && !u.Equal(nil), "hand-built: not equal to itself or equal to nil")
	vx.Assert(u.Equal(v.Normalize()) == e, "hand-built: equality with a normalization")
}

func C10_handparsed() {
	n := vx.Bound(7, 9)
	u, _ := parse(m8141, cat([]byte("urn:aB:"), vx.Bytes(n)))
	if u == nil {
		return
	}
	v := &urn.URN{ID: handID(2), SS: handSS(n)}
	e := equivalent(u, v)
	if e {
		vx.Reach("equivalent URNs")
	} else {
		vx.Reach("different URNs")
	}
	vx.Assert(u.Equal(v) == e, "parsed and hand-built: equality is not lexical equivalence")
	vx.Assert(v.Equal(u) == e, "hand-built and parsed: equality is not lexical equivalence")
}

// anyParts: any ASCII identifier and any specific string whose percent triples are complete, both possibly empty
func anyParts(nid, nss int) (string, string) {
	id, ss := vx.Bytes(nid), vx.Bytes(nss)
	for i := 0; i < len(id); i++ {
		vx.Assume(id[i] < 0x80)
	}
	for i := 0; i < len(ss); i++ {
		vx.Assume(ss[i] < 0x80)
		if ss[i] == '%' {
			vx.Assume(i+2 < len(ss) && isAlnum(ss[i+1]) && isAlnum(ss[i+2]))
		}
	}
	return string(id), string(ss)
}

// equality looks at the parts, not at the text they make
func C10_handany() {
	uid, uss := anyParts(vx.Bound(3, 4), vx.Bound(4, 5))
	vid, vss := anyParts(vx.Bound(3, 4), vx.Bound(4, 5))
	u := &urn.URN{ID: uid, SS: uss}
	v := &urn.URN{ID: vid, SS: vss}
	e := equivalent(u, v)
	if e {
		vx.Reach("equivalent URNs")
	} else {
		vx.Reach("different URNs")
	}
	vx.Assert(u.Equal(v) == e, "hand-built: equality is not equality of the parts")
	vx.Assert(v.Equal(u) == e, "hand-built: equality is not symmetric")
	n := u.Normalize()
	vx.Assert(n.Equal(u) && u.Equal(n), "hand-built: not equal to its normalization")
}

func C09_huge() { c09(m2141, huge()) }
func C10_huge() { c10(m2141, huge(), m2141, hugeOf("URN:EX:")) }

func C09_sizes()     { c09(m2141, sized(m2141)) }
func C09_sizesscim() { c09(mSCIM, sized(mSCIM)) }
func C09_sizes8141() { c09(m8141, sized(m8141)) }

func C10_sizes() {
	k := fill(1<<vx.Fork(vx.Int(4, 12))-2, sparse)
	vx.Steps(200000)
	c10(m2141, cat([]byte("urn:a:"), k, vx.Bytes(4)), m2141, cat([]byte("Urn:A:"), k, vx.Bytes(4)))
}

// in RFC 8141 mode, with components
func C10_sizes8141() {
	k := fill(1<<vx.Fork(vx.Int(4, 12))-2, sparse)
	vx.Steps(200000)
	c10(m8141, cat([]byte("urn:ab:"), k, vx.Bytes(3)), m8141, cat([]byte("urn:aB:"), k, vx.Bytes(3)))
}
