package vh

import (
	"vh/vx"

	urn "github.com/leodido/go-urn"
)

// namespaces people use: after them the specific string goes on with arbitrary bytes
var namespaces = []string{
	"urn:uuid:", "urn:isbn:", "urn:ISSN:", "urn:oid:2.", "urn:ietf:rfc:", "urn:ietf:params:xml:ns:", "urn:ietf:params:oauth:grant-type:",
	"urn:ietf:params:scim:schemas:core:2.0:", "URN:nbn:de:101:1-", "urn:oasis:names:tc:SAML:2.0:", "urn:lex:eu:council:directive:2010-03-09;",
	"urn:example:a/b", "urn:mpeg:mpeg7:schema:", "urn:publicid:-:W3C:DTD+", "urn:urn-1:", "urn:x-", "urn:epc:id:sgtin:", "urn:3gpp:", "urn:tel:+",
}

func known(n int) []byte {
	return cat([]byte(namespaces[vx.Fork(vx.Int(0, len(namespaces)-1))]), vx.Bytes(n))
}

func anyMode2() urn.ParsingMode { return []urn.ParsingMode{m2141, m8141}[vx.Fork(vx.Int(0, 1))] }

// identifiers of the form and length of a UUID, letters in any case
func uuid() []byte {
	b := vx.BytesMin(36, 36)
	for i := range b {
		switch i {
		case 8, 13, 18, 23:
			vx.Assume(b[i] == '-')
		default:
			vx.Assume(isAlnum(b[i]))
		}
	}
	return cat([]byte("urn:uuid:"), b)
}

func C01_known() { c01(anyMode2(), known(vx.Bound(6, 10))) }
func C03_known() { c03(known(vx.Bound(8, 12))) }
func C03_uuid()  { c03(uuid()) }
func C04_known() { c04(known(vx.Bound(8, 12))) }
func C04_uuid()  { c04(uuid()) }
func C07_known() { c07(known(vx.Bound(8, 10))) }
func C07_uuid()  { c07(uuid()) }
func C08_known() { c08(known(vx.Bound(6, 9))) }
func C08_uuid()  { c08(uuid()) }
func C09_known() { c09(anyMode2(), known(vx.Bound(6, 9))) }
func C09_uuid()  { c09(m2141, uuid()) }
func C10_known() {
	n := namespaces[vx.Fork(vx.Int(0, len(namespaces)-1))]
	c10(m2141, cat([]byte(n), vx.Bytes(vx.Bound(4, 6))), m2141, cat([]byte(n), vx.Bytes(vx.Bound(4, 6))))
}
func C10_uuid()  { c10(m2141, uuid(), m2141, uuid()) }
func C11_known() { c11b(anyMode2(), known(vx.Bound(4, 8))) }
func C14_known() { c14round(0, known(vx.Bound(5, 8))) }
func C15_known() { c15round(0, false, known(vx.Bound(4, 6))) }
func C17_known() { c17(anyMode2(), known(vx.Bound(6, 9))) }
func C18_known() { c18both(known(vx.Bound(6, 9))) }
func C18_uuid()  { c18both(uuid()) }
func C19_known() { c19(anyMode2(), known(vx.Bound(6, 9))) }
func C19_uuid()  { c19(m2141, uuid()) }

// alnums: n letters and digits
func alnums(n int) []byte {
	b := vx.BytesMin(n, n)
	for i := range b {
		vx.Assume(isAlnum(b[i]))
	}
	return b
}

// triples: n percent triples
func triples(n int) []byte {
	b := vx.BytesMin(3*n, 3*n)
	for i := range b {
		if i%3 == 0 {
			vx.Assume(b[i] == '%')
		} else {
			vx.Assume(isAlnum(b[i]))
		}
	}
	return b
}

// dense: well-formed inputs of over a hundred bytes whose letters, digits and percent triples are arbitrary everywhere
func dense(mode urn.ParsingMode) []byte {
	switch mode {
	case mSCIM:
		pre := cat([]byte(scimPre), []byte([]string{"schemas:", "api:", "param:"}[vx.Fork(vx.Int(0, 2))]))
		if vx.Fork(vx.Int(0, 1)) == 0 {
			return cat(pre, alnums(70))
		}
		return cat(pre, alnums(40), []byte(":"), triples(2), alnums(20), triples(8), alnums(4))
	case m8141:
		b := cat([]byte("urn:x"), alnums(30), []byte("y:"), triples(2), alnums(10), triples(6))
		sep := vx.Fork(vx.Int(0, 7))
		if sep&1 != 0 {
			b = cat(b, []byte("?+"), alnums(20), triples(3), []byte("/"), alnums(4))
		}
		if sep&2 != 0 {
			b = cat(b, []byte("?="), triples(3), alnums(20), []byte("?"), alnums(4))
		}
		if sep&4 != 0 {
			b = cat(b, []byte("#"), alnums(20), triples(3), alnums(4))
		}
		return b
	}
	return cat([]byte("UrN:x"), alnums(31), []byte(":"), alnums(20), triples(10), alnums(10), triples(5), []byte("'"), alnums(10))
}

func C03_dense() { c03(dense(m2141)) }
func C04_dense() { c04(dense(m2141)) }
func C05_dense() { c05(dense(mSCIM)) }
func C06_dense() { c06(dense(mSCIM)) }
func C07_dense() { c07(dense(m8141)) }
func C08_dense() { c08(dense(m8141)) }
func C09_dense() { m := urn.ParsingMode(vx.Fork(vx.Int(1, 3))); c09(m, dense(m)) }
func C09_againdense() {
	m := urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
	c09again(m, dense(m))
}
func C10_dense()      { c10(m2141, dense(m2141), m2141, dense(m2141)) }
func C10_densescim()  { c10(mSCIM, dense(mSCIM), mSCIM, dense(mSCIM)) }
func C10_dense8141()  { c10(m8141, dense(m8141), m8141, dense(m8141)) }
func C11_dense()      { m := urn.ParsingMode(vx.Fork(vx.Int(1, 3))); c11b(m, dense(m)) }
func C12_dense()      { m := urn.ParsingMode(vx.Fork(vx.Int(1, 3))); c12(m, dense(m), dense(m)) }
func C14_dense()      { c14round(vx.Fork(vx.Int(0, 2)), dense(m2141)) }
func C14_densetext()  { c14decode(quoted(dense(m2141))) }
func C15_dense()      { c15round(vx.Fork(vx.Int(0, 2)), false, dense(m8141)) }
func C15_densetext()  { c15decode(quoted(dense(m8141))) }
func C16_dense()      { c16round(vx.Fork(vx.Int(0, 2)), dense(mSCIM)) }
func C16_densetext()  { c16decode(quoted(dense(mSCIM))) }
func C18_dense()      { c18scim(dense(mSCIM)) }
func C18_bothdense()  { c18both(dense(m2141)) }
func C18_rev()        { c18both(dense(m8141)) }
func C19_dense()      { m := urn.ParsingMode(vx.Fork(vx.Int(1, 3))); c19(m, dense(m)) }
func C21_dense()      { m := urn.ParsingMode(vx.Fork(vx.Int(1, 3))); c21ops(m, dense(m), dense(m)) }
func C21_parsedense() { m := urn.ParsingMode(vx.Fork(vx.Int(1, 3))); c21parse(m, dense(m)) }
func C21_sizes() {
	m := urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
	n := []int{15, 63, 255}[vx.Fork(vx.Int(0, 2))]
	c21ops(m, sizedN(m, n, 2), sizedN(m, n, 1))
}
func C21_parsesizes() {
	m := urn.ParsingMode(vx.Fork(vx.Int(1, 3)))
	c21parse(m, sizedN(m, []int{15, 63, 255, 1023}[vx.Fork(vx.Int(0, 3))], 2))
}
