package vh

import (
	"encoding/json"

	"vh/vx"

	urn "github.com/leodido/go-urn"
	scimschema "github.com/leodido/go-urn/scim/schema"
)

// C25: the string form of values built by hand

func handString(id, ss string) string {
	if id == "" || ss == "" {
		return ""
	}
	return "urn:" + id + ":" + ss
}

func C25_urn() {
	id, ss := string(vx.Bytes(vx.Bound(8, 16))), string(vx.Bytes(vx.Bound(10, 20)))
	u := &urn.URN{ID: id, SS: ss}
	if id != "" && ss != "" {
		vx.Reach("both parts")
	} else {
		vx.Reach("a part missing")
	}
	vx.Assert(u.String() == handString(id, ss), "string form of a URN built by hand")
	vx.Assert(u.ID == id && u.SS == ss, "a URN is changed by asking for its string form")
	vx.Assert(u.RFC() == urn.NONE && !u.IsSCIM() && u.SCIM() == nil, "kind of a URN built by hand")
	vx.Assert(u.RComponent() == "" && u.QComponent() == "" && u.FComponent() == "", "components of a URN built by hand")
	w := urn.URN8141{URN: u}
	vx.Assert(w.String() == u.String(), "string form of a RFC 8141 URN built by hand")
}

func C25_norm() {
	id, ss := anyParts(vx.Bound(6, 10), vx.Bound(8, 12))
	u := &urn.URN{ID: id, SS: ss}
	n := u.Normalize()
	vx.Assert(n.ID == lowerAll(id) && n.SS == lowerTriples(ss), "normalization of a URN built by hand")
	vx.Assert(n.String() == handString(lowerAll(id), lowerTriples(ss)), "string form of the normalization of a URN built by hand")
	vx.Assert(u.ID == id && u.SS == ss, "a URN is changed by its normalization")
	vx.Reach("normalized")
}

func C25_scim() {
	t := scimschema.Type(vx.Fork(vx.Int(0, 4)))
	name, other := string(vx.Bytes(vx.Bound(8, 16))), string(vx.Bytes(vx.Bound(8, 16)))
	s := &urn.SCIM{Type: t, Name: name, Other: other}
	w := scimPre + [...]string{"", "schemas", "api", "param", ""}[t] + ":" + name
	if other != "" {
		vx.Reach("with another part")
		w += ":" + other
	} else {
		vx.Reach("without another part")
	}
	vx.Assert(s.String() == w, "string form of a SCIM value built by hand")
}

// printable text without what JSON escapes
func text(n int) string {
	b := vx.BytesMin(n, n)
	for i := 0; i < n; i++ {
		c := b[i]
		vx.Assume(c >= 0x20 && c < 0x7f && c != '"' && c != '\\' && c != '<' && c != '>' && c != '&')
	}
	return string(b[:vx.Int(0, n)])
}

func c25json(v interface{ MarshalJSON() ([]byte, error) }, want string) {
	doc, err := v.MarshalJSON()
	vx.Assert(err == nil, "a value built by hand cannot be marshalled")
	doc = expect(doc, want)
	var s string
	vx.Assert(json.Unmarshal(doc, &s) == nil && s == want, "the JSON form of a value built by hand is not its string form")
	vx.Reach("marshalled")
}

func C25_json() {
	id, ss := text(vx.Bound(5, 8)), text(vx.Bound(7, 10))
	c25json(urn.URN{ID: id, SS: ss}, handString(id, ss))
}
func C25_json8141() {
	id, ss := text(vx.Bound(5, 8)), text(vx.Bound(7, 10))
	c25json(urn.URN8141{URN: &urn.URN{ID: id, SS: ss}}, handString(id, ss))
}
func C25_jsonscim() {
	t := scimschema.Type(vx.Fork(vx.Int(1, 3)))
	name, other := text(vx.Bound(6, 8)), text(vx.Bound(6, 8))
	w := scimPre + [...]string{"", "schemas", "api", "param"}[t] + ":" + name
	if other != "" {
		w += ":" + other
	}
	c25json(urn.SCIM{Type: t, Name: name, Other: other}, w)
}

func C25_sizes() {
	ss := string(cat(fill(1<<vx.Fork(vx.Int(4, 12))-2, sparse), vx.Bytes(4)))
	vx.Steps(200000)
	u := &urn.URN{ID: "aB", SS: ss}
	vx.Reach("built")
	vx.Assert(u.String() == "urn:aB:"+ss, "string form of a URN built by hand")
	n := u.Normalize()
	vx.Assert(n.ID == "ab" && n.SS == lowerTriples(ss), "normalization of a URN built by hand")
	s := &urn.SCIM{Type: scimschema.Param, Name: ss, Other: ss}
	vx.Assert(s.String() == scimPre+"param:"+ss+":"+ss, "string form of a SCIM value built by hand")
}
