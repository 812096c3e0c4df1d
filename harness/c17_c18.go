package vh

import (
	"strings"

	"vh/vx"

	urn "github.com/leodido/go-urn"
)

// C17: errors name the part at fault and where it is

// refused inputs, one for each error of a mode, and a word of its text
var c17samples = [4][]struct {
	kind int
	text string
	word string
}{
	m2141: {
		{kPrefix, "x", "prefix"},
		{kID, "urn:-", "identifier"},
		{kSS, "urn:a:", "specific string"},
		{kURN, "urn:urn:a", "reserved"},
		{kHex, "urn:a:%", "percent encoded"},
	},
	mSCIM: {
		{kPrefix, "x", "prefix"},
		{kNS, "urn:x", "SCIM namespace"},
		{kType, scimPre + "x", "SCIM type"},
		{kName, scimPre + "api:", "SCIM name"},
		{kOther, scimPre + "api:a:#", "other"},
		{kOtherCut, scimPre + "api:a:", "not empty SCIM other"},
	},
	m8141: {
		{kPrefix, "x", "prefix"},
		{kID, "urn:-", "dent"},
		{kSS, "urn:ab:", "specific string"},
		{kHex, "urn:ab:%", "percent encoded"},
		{kInformal, "urn:urn-0:a", "informal"},
		{kR, "urn:ab:c?+", "r-component"},
		{kQ, "urn:ab:c?=", "q-component"},
		{kRDup, "urn:ab:c?+r?+x", "only one r-component"},
		{kQDup, "urn:ab:c?=q?=x", "only one q-component"},
		{kMalformed, "urn:ab:c?", "unexpected"},
	},
}

func c17classes(mode urn.ParsingMode) [nKinds]string {
	var r [nKinds]string
	for _, s := range c17samples[mode] {
		_, err := parse(mode, []byte(s.text))
		r[s.kind], _ = vx.ErrInfo(err)
	}
	return r
}

func refOf(mode urn.ParsingMode, b []byte) refResult {
	switch mode {
	case mSCIM:
		return refSCIM(b)
	case m8141:
		return ref8141(b)
	}
	return ref2141(b)
}

func c17(mode urn.ParsingMode, b []byte) {
	cl := c17classes(mode)
	_, err := parse(mode, b)
	if err == nil {
		return
	}
	vx.Reach("refused input")
	r := refOf(mode, b)
	vx.Assert(!r.ok, "an input of the language is refused")
	k, c := vx.ErrInfo(err)
	vx.Assert(k == cl[r.kind], "the error is not the one of the part at fault")
	vx.Assert(c == r.col, "the column of the error is not the one at fault")
}

// the errors are different and say what is wrong
func c17texts(mode urn.ParsingMode) {
	cl := c17classes(mode)
	for i := 0; i < nKinds; i++ {
		for j := 0; j < i; j++ {
			vx.Assert(cl[i] == "" || cl[i] != cl[j], "two errors are the same")
		}
	}
	for _, s := range c17samples[mode] {
		vx.Assert(strings.Contains(cl[s.kind], s.word), "an error does not name the part at fault")
	}
	vx.Reach("errors compared")
}

func C17_texts() { c17texts(urn.ParsingMode(vx.Fork(vx.Int(1, 3)))) }

func C17_2141()     { c17(m2141, vx.Bytes(vx.Bound(20, 32))) }
func C17_id()       { c17(m2141, idWin("urn:", 27, vx.Bound(8, 14))) }
func C17_long()     { c17(m2141, ssWin("URN:ex:", 300, 3)) }
func C17_scim()     { c17(mSCIM, vx.Bytes(vx.Bound(28, 40))) }
func C17_type()     { c17(mSCIM, cat([]byte("uRN:ietf:params:scim:"), vx.Bytes(vx.Bound(16, 24)))) }
func C17_other()    { c17(mSCIM, cat([]byte(scimPre+"param:a"), vx.Bytes(vx.Bound(14, 24)))) }
func C17_8141()     { c17(m8141, vx.Bytes(vx.Bound(15, 22))) }
func C17_8141id()   { c17(m8141, idWin("urn:", 27, vx.Bound(8, 14))) }
func C17_informal() { c17(m8141, cat([]byte("urn:"), vx.Bytes(vx.Bound(12, 18)))) }
func C17_informal2() {
	c17(m8141, cat([]byte("urn:uRN-"), vx.BytesMin(2, 2), fill(20, "0123456789"), vx.Bytes(vx.Bound(7, 10))))
}
func C17_comps() { c17(m8141, cat([]byte("urn:ab:"), vx.Bytes(vx.Bound(10, 16)))) }
func C17_rcomp() { c17(m8141, cat([]byte("urn:ab:c?+"), vx.Bytes(vx.Bound(10, 16)))) }
func C17_qcomp() { c17(m8141, cat([]byte("urn:ab:c?+r/?=q"), vx.Bytes(vx.Bound(10, 16)))) }
func C17_fcomp() { c17(m8141, cat([]byte("urn:ab:c?=q#"), vx.Bytes(vx.Bound(12, 20)))) }
func C17_rqlong() {
	c17(m8141, cat([]byte("urn:ab:"), fill(60, mixed), vx.BytesMin(3, 3), fill(60, mixed), vx.BytesMin(3, 3), fill(60, mixed), vx.Bytes(3)))
}

// C18: the modes agree on the inputs they share

func c18scim(b []byte) {
	u, _ := parse(mSCIM, b)
	if u == nil {
		return
	}
	vx.Reach("SCIM URN")
	for _, m := range [2]urn.ParsingMode{m2141, m8141} {
		v, err := parse(m, b)
		vx.Assert(v != nil && err == nil, "a SCIM URN is refused in another mode")
		vx.Assert(v.String() == u.String(), "a SCIM URN has another string form in another mode")
	}
}

func C18_scim()  { c18scim(cat(vx.BytesMin(4, 4), vx.Bytes(vx.Bound(22, 30)))) }
func C18_type()  { c18scim(cat([]byte("uRn:ietf:params:scim:"), vx.Bytes(vx.Bound(13, 20)))) }
func C18_other() { c18scim(cat([]byte(scimPre+"api:a"), vx.Bytes(vx.Bound(12, 20)))) }
func C18_long() {
	c18scim(cat([]byte(scimPre+"schemas:"), fill(300, "aB9z"), vx.BytesMin(3, 3), fill(300, "a0Z"), vx.BytesMin(3, 3), fill(600, mixed), vx.Bytes(3)))
}

// id8141 says whether an identifier is one of RFC 8141
func id8141(id string) bool {
	if len(id) < 2 || len(id) > 32 || id[0] == '-' || id[len(id)-1] == '-' {
		return false
	}
	if len(id) >= 4 && lowerAll(id[:4]) == "urn-" {
		if len(id) == 4 || id[4] == '0' {
			return false
		}
		for i := 4; i < len(id); i++ {
			if !isDigit(id[i]) {
				return false
			}
		}
	}
	return true
}

func c18both(b []byte) {
	u, _ := parse(m2141, b)
	v, _ := parse(m8141, b)
	if u != nil && id8141(u.ID) {
		vx.Reach("accepted in RFC 2141 mode, with an identifier of RFC 8141")
		vx.Assert(v != nil, "refused in RFC 8141 mode only")
		vx.Assert(v.ID == u.ID, "identifiers differ")
		vx.Assert(v.SS == u.SS, "specific strings differ")
		vx.Assert(v.RComponent() == "" && v.QComponent() == "" && v.FComponent() == "", "unexpected components")
		vx.Assert(v.String() == u.String(), "string forms differ")
		sameNorm(u, v, "the modes")
		vx.Assert(u.Equal(v) && v.Equal(u), "not equal across the modes")
	}
	if v == nil {
		return
	}
	for i := 0; i < len(b); i++ {
		if c := b[i]; c == '~' || c == '&' || c == '/' || c == '?' || c == '#' {
			return
		}
	}
	if lowerAll(v.ID) == "urn" {
		return
	}
	vx.Reach("accepted in RFC 8141 mode, with characters of RFC 2141")
	vx.Assert(u != nil, "refused in RFC 2141 mode only")
}

func C18_both()   { c18both(vx.Bytes(vx.Bound(12, 18))) }
func C18_bothss() { c18both(cat([]byte("urn:ab"), vx.Bytes(vx.Bound(10, 15)))) }
func C18_bothid() { c18both(idWin("urn:", 27, vx.Bound(7, 11))) }
func C18_informal() {
	c18both(cat([]byte("urn:urn-"), vx.Bytes(vx.Bound(8, 12))))
}
func C18_bothlong() { c18both(ssWin("URN:ex:", 100, 3)) }

func C17_sizes()     { c17(m2141, sized(m2141)) }
func C17_sizesscim() { c17(mSCIM, sized(mSCIM)) }
func C17_sizes8141() { c17(m8141, sized(m8141)) }
func C18_sizes()     { c18scim(sized(mSCIM)) }
func C18_sizesboth() { c18both(sized(m2141)) }
