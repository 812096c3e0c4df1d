// Package cmpgen compares the committed parser with the one generated afresh from its grammar source.
package cmpgen

import (
	fresh "gen/fresh"

	"vh/vx"

	urn "github.com/leodido/go-urn"
)

// C24: the shipped parser is the one its grammar source describes

func same(a, b string, what string) { vx.Assert(a == b, "the committed and the generated parser differ: "+what) }

func c24with(m urn.Machine, f fresh.Machine, b []byte) {
	u, eu := m.Parse(b)
	v, ev := f.Parse(b)
	vx.Assert((eu == nil) == (ev == nil), "the committed and the generated parser differ: error or not")
	vx.Assert((u == nil) == (v == nil), "the committed and the generated parser differ: verdict")
	if eu != nil && ev != nil {
		vx.Reach("refused input")
		ku, cu := vx.ErrInfo(eu)
		kv, cv := vx.ErrInfo(ev)
		same(ku, kv, "error")
		vx.Assert(cu == cv, "the committed and the generated parser differ: column of the error")
	}
	if u == nil || v == nil {
		return
	}
	vx.Reach("accepted input")
	same(u.ID, v.ID, "identifier")
	same(u.SS, v.SS, "specific string")
	same(u.RComponent(), v.RComponent(), "r-component")
	same(u.QComponent(), v.QComponent(), "q-component")
	same(u.FComponent(), v.FComponent(), "f-component")
	same(u.String(), v.String(), "string form")
	vx.Assert(int(u.RFC()) == int(v.RFC()), "the committed and the generated parser differ: kind")
	nu, nv := u.Normalize(), v.Normalize()
	same(nu.ID, nv.ID, "normalized identifier")
	same(nu.SS, nv.SS, "normalized specific string")
	same(nu.String(), nv.String(), "normalized string form")
	su, sv := u.SCIM(), v.SCIM()
	vx.Assert((su == nil) == (sv == nil), "the committed and the generated parser differ: SCIM value or not")
	if su != nil && sv != nil {
		vx.Assert(su.Type == sv.Type, "the committed and the generated parser differ: SCIM type")
		same(su.Name, sv.Name, "SCIM name")
		same(su.Other, sv.Other, "SCIM other part")
	}
}

const (
	m2141 = int(urn.RFC2141Only)
	mSCIM = int(urn.RFC7643Only)
	m8141 = int(urn.RFC8141Only)
)

func c24(mode int, b []byte) {
	c24with(urn.NewMachine(urn.WithParsingMode(urn.ParsingMode(mode))), fresh.NewMachine(fresh.WithParsingMode(fresh.ParsingMode(mode))), b)
}

func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

func fill(n int, s string) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = s[i%len(s)]
	}
	return b
}

const mixed = "aB-%2F:c%c3.%A9=9@;z"
const scimPre = "urn:ietf:params:scim:"

func C24_2141() { c24(m2141, vx.Bytes(vx.Bound(18, 28))) }
func C24_id()   { c24(m2141, cat([]byte("urn:"), fill(27, "aZ-09b"), vx.Bytes(vx.Bound(8, 14)))) }
func C24_ss()   { c24(m2141, cat([]byte("URN:a:"), vx.Bytes(vx.Bound(12, 18)))) }
func C24_long() {
	c24(m2141, cat([]byte("URN:ex:"), fill(200, mixed), vx.BytesMin(3, 3), fill(400, mixed), vx.Bytes(3)))
}
func C24_scim()  { c24(mSCIM, vx.Bytes(vx.Bound(24, 32))) }
func C24_type()  { c24(mSCIM, cat([]byte("uRN:ietf:params:scim:"), vx.Bytes(vx.Bound(14, 20)))) }
func C24_other() { c24(mSCIM, cat([]byte(scimPre+"param:a"), vx.Bytes(vx.Bound(12, 18)))) }
func C24_8141()  { c24(m8141, vx.Bytes(vx.Bound(13, 18))) }
func C24_8141id() {
	c24(m8141, cat([]byte("urn:"), fill(27, "aZ-09b"), vx.Bytes(vx.Bound(8, 12))))
}
func C24_informal() { c24(m8141, cat([]byte("urn:urn-"), vx.Bytes(vx.Bound(9, 14)))) }
func C24_comps()    { c24(m8141, cat([]byte("urn:ab:"), vx.Bytes(vx.Bound(8, 12)))) }
func C24_rcomp()    { c24(m8141, cat([]byte("urn:ab:c?+"), vx.Bytes(vx.Bound(8, 12)))) }
func C24_qcomp()    { c24(m8141, cat([]byte("urn:ab:c?+r/?=q"), vx.Bytes(vx.Bound(7, 12)))) }
func C24_fcomp()    { c24(m8141, cat([]byte("urn:ab:c?=q#"), vx.Bytes(vx.Bound(9, 14)))) }
func C24_long8141() {
	k := fill(60, mixed)
	c24(m8141, cat([]byte("uRn:ab-9:"), k, vx.BytesMin(3, 3), k, vx.BytesMin(3, 3), k, vx.Bytes(3)))
}

// a second parse, and no option at all
func C24_again() {
	mode := vx.Fork(vx.Int(0, 3))
	m, f := urn.NewMachine(), fresh.NewMachine()
	if mode > 0 {
		m.WithParsingMode(urn.ParsingMode(mode))
		f.WithParsingMode(fresh.ParsingMode(mode))
	}
	a := [...]string{"urn:a:b%C3", "urn:urn:x", "URN:ab:c?+r?=q#f", scimPre + "api:messages:2.0:A%AF", "urn:ab:%"}[vx.Fork(vx.Int(0, 4))]
	m.Parse([]byte(a))
	f.Parse([]byte(a))
	c24with(m, f, cat([]byte("urn:ab:"), vx.Bytes(vx.Bound(5, 8))))
}
