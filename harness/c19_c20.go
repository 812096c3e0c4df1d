package vh

import (
	"vh/vx"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C19: parsing a URN's string form gives the same URN back

func c19(mode urn.ParsingMode, b []byte) {
	u, _ := parse(mode, b)
	if u == nil {
		return
	}
	vx.Reach("accepted input")
	str := string(b)
	if mode == m8141 {
		str = dropHash(b)
	}
	v, err := parse(mode, []byte(vx.Cut(u.String(), str)))
	vx.Assert(v != nil && err == nil, "the string form is refused")
	sameParts(partsOf(u), partsOf(v), "string form parsed")
	vx.Assert(u.Equal(v) && v.Equal(u), "not equal to the URN of its string form")
}

func C19_2141() { c19(m2141, vx.Bytes(vx.Bound(18, 26))) }
func C19_id()   { c19(m2141, idWin("uRN:", 27, vx.Bound(8, 14))) }
func C19_hex()  { c19(m2141, cat([]byte("uRN:aB-:"), vx.Bytes(vx.Bound(14, 22)))) }
func C19_long() { c19(m2141, ssWin("URN:Ex:", 100, 3)) }
func C19_scim() {
	c19(mSCIM, cat(vx.BytesMin(3, 3), []byte(":ietf:params:scim:"), vx.Bytes(vx.Bound(12, 18))))
}
func C19_other() { c19(mSCIM, cat([]byte("Urn:ietf:params:scim:param:a"), vx.Bytes(vx.Bound(10, 15)))) }
func C19_scimlong() {
	c19(mSCIM, cat([]byte("URN:ietf:params:scim:schemas:"), fill(100, "aB9z"), vx.BytesMin(3, 3), fill(100, "a0Z"), []byte(":"), fill(200, mixed), vx.Bytes(3)))
}
func C19_8141()   { c19(m8141, vx.Bytes(vx.Bound(14, 19))) }
func C19_8141id() { c19(m8141, idWin("uRN:", 27, vx.Bound(8, 14))) }
func C19_urndash() {
	c19(m8141, cat([]byte("Urn:uRN-"), vx.Bytes(vx.Bound(9, 13))))
}
func C19_comps() { c19(m8141, cat([]byte("urN:Ab:"), vx.Bytes(vx.Bound(8, 12)))) }
func C19_rq()    { c19(m8141, cat([]byte("urN:Ab:c?+R"), vx.Bytes(vx.Bound(7, 11)))) }
func C19_qf()    { c19(m8141, cat([]byte("urN:Ab:c?=q"), vx.Bytes(vx.Bound(7, 11)))) }
func C19_8141long() {
	c19(m8141, cat([]byte("uRn:ab-9:"), fill(40, mixed), vx.BytesMin(2, 2), fill(40, mixed), []byte("?="), fill(40, mixed), vx.BytesMin(2, 2), fill(20, mixed), vx.Bytes(2)))
}

// base is a URN without components, rest what is appended to it
func c19append(base, rest []byte) {
	u, _ := parse(m8141, base)
	if u == nil {
		return
	}
	for i := 0; i < len(base); i++ {
		vx.Assume(base[i] != '?' && base[i] != '#')
	}
	v, _ := parse(m8141, cat(base, rest))
	if v == nil {
		return
	}
	vx.Reach("URN with appended components")
	vx.Assert(v.ID == u.ID, "appended components change the identifier")
	vx.Assert(v.SS == u.SS, "appended components change the specific string")
	vx.Assert(u.Equal(v) && v.Equal(u), "appended components change the equivalence")
}

func C19_appendr() {
	c19append(cat([]byte("uRn:aB:"), vx.BytesMin(4, 4)), cat([]byte("?+"), vx.Bytes(vx.Bound(6, 9))))
}
func C19_appendq() {
	c19append(cat([]byte("uRn:"), vx.BytesMin(6, 6)), cat([]byte("?="), vx.Bytes(vx.Bound(6, 9))))
}
func C19_appendf() {
	c19append(cat([]byte("uRn:aB:c"), vx.BytesMin(4, 4)), cat([]byte("#"), vx.Bytes(vx.Bound(6, 9))))
}

// C20: SCIM type names map one-to-one

func C20_names() {
	b := vx.Bytes(vx.Bound(9, 12))
	s := string(b)
	t := scimschema.TypeFromString(s)
	known := s == "schemas" || s == "api" || s == "param"
	if known {
		vx.Reach("name of a type")
		vx.Assert(t != scimschema.Unsupported, "the name of a type is not mapped to it")
		vx.Assert(t.String() == s, "a type maps back to another name")
	} else {
		vx.Reach("another string")
		vx.Assert(t == scimschema.Unsupported, "another string is mapped to a type")
		vx.Assert(t.String() == "", "the unsupported type has a name")
	}
}

func C20_long() {
	s := []string{"schemas", "api", "param"}[vx.Fork(vx.Int(0, 2))]
	b := cat([]byte(s), vx.Bytes(vx.Bound(6, 10)))
	vx.Reach("extended name")
	vx.Assert((scimschema.TypeFromString(string(b)) == scimschema.Unsupported) == (len(b) != len(s)), "an extended name is mapped to a type")
	b = cat(vx.Bytes(vx.Bound(6, 10)), []byte(s))
	vx.Assert((scimschema.TypeFromString(string(b)) == scimschema.Unsupported) == (len(b) != len(s)), "an extended name is mapped to a type")
}

// every value of the type
func C20_values() {
	v := 0
	for i := 0; i < 8; i++ {
		v = v<<8 | int(vx.Byte())
	}
	t := scimschema.Type(v)
	n := t.String()
	switch t {
	case scimschema.Schemas:
		vx.Reach("schemas")
		vx.Assert(n == "schemas", "name of the type schemas")
	case scimschema.API:
		vx.Reach("api")
		vx.Assert(n == "api", "name of the type api")
	case scimschema.Param:
		vx.Reach("param")
		vx.Assert(n == "param", "name of the type param")
	default:
		vx.Reach("other value")
		vx.Assert(n == "", "a value outside the enumeration has a name")
	}
	if n != "" {
		vx.Assert(scimschema.TypeFromString(n) == t, "a name maps back to another type")
	}
}

func C19_sizes()     { c19(m2141, sized(m2141)) }
func C19_sizesscim() { c19(mSCIM, sized(mSCIM)) }
func C19_sizes8141() { c19(m8141, sized(m8141)) }
