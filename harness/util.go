package vh

import (
	"strings"

	"vh/vx"

	urn "github.com/leodido/go-urn"
)

const (
	m2141 = urn.RFC2141Only
	mSCIM = urn.RFC7643Only
	m8141 = urn.RFC8141Only
)

func parse(mode urn.ParsingMode, b []byte) (*urn.URN, error) {
	return urn.NewMachine(urn.WithParsingMode(mode)).Parse(b)
}

// parts of a URN, read one by one through the public interface
type parts struct {
	id, ss, r, q, f, str string
	kind                 urn.Kind
	isSCIM               bool
	scim                 *urn.SCIM
}

func partsOf(u *urn.URN) parts {
	return parts{u.ID, u.SS, u.RComponent(), u.QComponent(), u.FComponent(), u.String(), u.RFC(), u.IsSCIM(), u.SCIM()}
}

// sameParts asserts that two URNs have the same parts
func sameParts(p, q parts, what string) {
	vx.Assert(p.id == q.id, what+": identifier")
	vx.Assert(p.ss == q.ss, what+": specific string")
	vx.Assert(p.r == q.r, what+": r-component")
	vx.Assert(p.q == q.q, what+": q-component")
	vx.Assert(p.f == q.f, what+": f-component")
	vx.Assert(p.str == q.str, what+": string form")
	vx.Assert(p.kind == q.kind, what+": kind")
	vx.Assert(p.isSCIM == q.isSCIM, what+": IsSCIM")
	vx.Assert((p.scim == nil) == (q.scim == nil), what+": SCIM value or not")
	if p.scim != nil && q.scim != nil {
		vx.Assert(p.scim.Type == q.scim.Type, what+": SCIM type")
		vx.Assert(p.scim.Name == q.scim.Name, what+": SCIM name")
		vx.Assert(p.scim.Other == q.scim.Other, what+": SCIM other part")
	}
}

func sameNorm(u, v *urn.URN, what string) {
	p, q := u.Normalize(), v.Normalize()
	vx.Assert(p.ID == q.ID, what+": normalized identifier")
	vx.Assert(p.SS == q.SS, what+": normalized specific string")
	vx.Assert(p.String() == q.String(), what+": normalized string form")
}

// sameOutcome asserts that two parses had the same outcome
func sameOutcome(u *urn.URN, eu error, v *urn.URN, ev error, what string) {
	vx.Assert((u == nil) == (v == nil), what+": verdict")
	vx.Assert((eu == nil) == (ev == nil), what+": error or not")
	if eu != nil && ev != nil {
		ku, cu := vx.ErrInfo(eu)
		kv, cv := vx.ErrInfo(ev)
		vx.Assert(ku == kv, what+": error")
		vx.Assert(cu == cv, what+": column of the error")
	}
	if u != nil && v != nil {
		sameParts(partsOf(u), partsOf(v), what)
		sameNorm(u, v, what)
	}
}

func lowerAll(s string) string {
	b := []byte(s)
	for i := 0; i < len(b); i++ {
		b[i] = low(b[i])
	}
	return string(b)
}

// lowerTriples lower-cases the letters of percent triples
func lowerTriples(s string) string {
	b := []byte(s)
	for i := 0; i < len(b); i++ {
		if b[i] == '%' && i+2 < len(b) {
			b[i+1] = low(b[i+1])
			b[i+2] = low(b[i+2])
			i += 2
		}
	}
	return string(b)
}

// Inputs: some symbolic bytes in chosen surroundings

func cat(parts ...[]byte) []byte {
	var r []byte
	for _, p := range parts {
		r = append(r, p...)
	}
	return r
}

// fill gives n bytes of repeated s (cut at n)
func fill(n int, s string) []byte {
	return []byte(strings.Repeat(s, n/len(s)+1))[:n:n]
}

// idWin: identifiers around the length limit
func idWin(pre string, k, n int) []byte {
	return cat([]byte(pre), fill(k, "aZ-09b"), vx.Bytes(n))
}

const mixed = "aB-%2F:c%c3.%A9=9@;z"

// without percent triples, 102 bytes
const sparse = "aB-(2F):c$c3.!A9=9@;zaB-_2F,c'c3.xA9+9*0zABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz345678"

// ssWin: a long specific string with symbolic bytes in its middle and at its end
func ssWin(head string, k, n int) []byte {
	return cat([]byte(head), fill(k, mixed), vx.BytesMin(n, n), fill(2*k, mixed), vx.Bytes(n))
}

// huge: past the sizes at which buffers and counters overflow
func huge() []byte { return hugeOf("urn:ex:") }

func hugeOf(head string) []byte {
	vx.Steps(4000000)
	return cat([]byte(head), fill(66000, mixed+sparse+sparse+sparse+sparse), vx.Bytes(3))
}

// sized: parts of 14 to 4098 bytes (around the powers of two), symbolic bytes at their ends
func sized(mode urn.ParsingMode) []byte { return sizedN(mode, 1<<vx.Fork(vx.Int(4, 12))-2, 4) }

func sizedN(mode urn.ParsingMode, n, tailN int) []byte {
	vx.Steps(200000)
	head, tail := "urn:ex:", sparse
	switch mode {
	case mSCIM:
		if head = scimPre + "api:"; vx.Fork(vx.Int(0, 1)) == 0 {
			tail = "aB9z"
		} else {
			head += "n:"
		}
	case m8141:
		head += []string{"", "a?+", "a?=", "a#"}[vx.Fork(vx.Int(0, 3))]
	}
	return cat([]byte(head), fill(n, tail), vx.Bytes(tailN))
}

// compWin: long components, symbolic bytes where they begin and end
func compWin(k, n int) []byte {
	return cat([]byte("uRn:ab-9:"), fill(k, mixed), vx.BytesMin(n, n), fill(k, mixed), vx.BytesMin(n, n), fill(k, mixed), vx.BytesMin(n, n), fill(k, mixed), vx.Bytes(n))
}

const scimPre = "urn:ietf:params:scim:"
