package vh

// The reference model: what the properties say about texts, written from them and independently of the parser. Each
// function scans the text once, byte by byte; positions are kept in an array so that the engine can merge states which
// differ in them only.

// Error classes
const (
	kOK = iota
	kPrefix
	kID
	kSS
	kURN
	kHex
	kNS
	kType
	kName
	kOther
	kOtherCut
	kInformal
	kR
	kQ
	kRDup
	kQDup
	kMalformed
	nKinds
)

// Indices of positions
const (
	pID = iota * 2 // identifier
	pSS            // specific string
	pR             // r-component, or SCIM type
	pQ             // q-component, or SCIM name
	pF             // f-component, or SCIM other part
	nPos
)

type refResult struct {
	ok   bool
	kind int
	col  int
	pos  [nPos]int // from, to
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }
func isAlnum(c byte) bool {
	return c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

// isOther: the characters of RFC 2141 specific strings besides letters, digits and percent signs
func isOther(c byte) bool {
	switch c {
	case '(', ')', '+', ',', '-', '.', ':', '=', '@', ';', '$', '_', '!', '*', '\'':
		return true
	}
	return false
}
func isSSS(c byte) bool { return isAlnum(c) || isOther(c) }

// isPath: what begins a path character
func isPath(c byte) bool { return isSSS(c) || c == '~' || c == '&' || c == '%' }

func low(c byte) byte {
	if c >= 'A' && c <= 'Z' {
		return c + 32
	}
	return c
}

const pre = "urn:"

func refPrefix_mergeall(d []byte) (bool, int) {
	for i := 0; i < 4; i++ {
		if i >= len(d) || low(d[i]) != pre[i] {
			return false, i
		}
	}
	return true, 4
}

func bad(kind, col int, pos *[nPos]int) (bool, int, int, [nPos]int) { return false, kind, col, *pos }

func ref2141(d []byte) refResult {
	ok, k, c, p := ref2141_mergeall(d)
	return refResult{ok, k, c, p}
}

func ref2141_mergeall(d []byte) (bool, int, int, [nPos]int) {
	pos := new([nPos]int)
	if ok, i := refPrefix_mergeall(d); !ok {
		return bad(kPrefix, i, pos)
	}
	i := 4
	pos[pID] = 4
	urn := true
	for ; ; i++ {
		if i >= len(d) {
			return bad(kID, i, pos)
		}
		c := d[i]
		if c == ':' && i > 4 {
			break
		}
		if i >= 36 || !(isAlnum(c) || c == '-' && i > 4) {
			return bad(kID, i, pos)
		}
		if i < 7 {
			urn = urn && low(c) == pre[i-4]
		}
	}
	if i == 7 && urn {
		return bad(kURN, 7, pos)
	}
	pos[pID+1] = i
	pos[pSS] = i + 1
	first := true
	for j := i + 1; ; j++ {
		if j >= len(d) {
			if first {
				return bad(kSS, j, pos)
			}
			break
		}
		first = false
		if d[j] == '%' {
			j++
			if j >= len(d) || !isAlnum(d[j]) {
				return bad(kHex, j, pos)
			}
			j++
			if j >= len(d) || !isAlnum(d[j]) {
				return bad(kHex, j, pos)
			}
			continue
		}
		if !isSSS(d[j]) {
			return bad(kSS, j, pos)
		}
	}
	pos[pSS+1] = len(d)
	return true, kOK, 0, *pos
}

const scimNS = "ietf:params:scim:"

var scimTypes = [3]string{"schemas:", "api:", "param:"}

func refSCIM(d []byte) refResult {
	ok, k, c, p := refSCIM_mergeall(d)
	return refResult{ok, k, c, p}
}

func refSCIM_mergeall(d []byte) (bool, int, int, [nPos]int) {
	pos := new([nPos]int)
	if ok, i := refPrefix_mergeall(d); !ok {
		return bad(kPrefix, i, pos)
	}
	for k := 0; k < len(scimNS); k++ {
		if 4+k >= len(d) || d[4+k] != scimNS[k] {
			return bad(kNS, 4+k, pos)
		}
	}
	pos[pID], pos[pID+1], pos[pSS], pos[pR] = 4, 20, 21, 21
	// the types begin with different letters
	var t string
	if len(d) > 21 {
		switch d[21] {
		case 's':
			t = scimTypes[0]
		case 'a':
			t = scimTypes[1]
		case 'p':
			t = scimTypes[2]
		}
	}
	if t == "" {
		return bad(kType, 21, pos)
	}
	i := 21
	for k := 0; k < len(t); k++ {
		if i >= len(d) || d[i] != t[k] {
			return bad(kType, i, pos)
		}
		i++
	}
	pos[pR+1] = i - 1
	pos[pQ] = i
	first := true
	for ; i < len(d) && isAlnum(d[i]); i++ {
		first = false
	}
	if first || i < len(d) && d[i] != ':' {
		return bad(kName, i, pos)
	}
	pos[pQ+1] = i
	pos[pSS+1] = len(d)
	if i == len(d) {
		return true, kOK, 0, *pos
	}
	pos[pF] = i + 1
	if i+1 == len(d) {
		return bad(kOtherCut, i, pos)
	}
	for j := i + 1; j < len(d); j++ {
		if d[j] == '%' {
			j++
			if j >= len(d) {
				return bad(kOtherCut, j-1, pos)
			}
			if !isAlnum(d[j]) {
				return bad(kOther, j, pos)
			}
			j++
			if j >= len(d) {
				return bad(kOtherCut, j-1, pos)
			}
			if !isAlnum(d[j]) {
				return bad(kOther, j, pos)
			}
			continue
		}
		if !isSSS(d[j]) {
			return bad(kOther, j, pos)
		}
	}
	pos[pF+1] = len(d)
	return true, kOK, 0, *pos
}

func ref8141(d []byte) refResult {
	ok, k, c, p := ref8141_mergeall(d)
	return refResult{ok, k, c, p}
}

func ref8141_mergeall(d []byte) (bool, int, int, [nPos]int) {
	pos := new([nPos]int)
	if ok, i := refPrefix_mergeall(d); !ok {
		return bad(kPrefix, i, pos)
	}
	pos[pID] = 4
	informal := true   // "urn-" so far
	badNumber := false // something else than a digit after "urn-"
	dash := false      // the last character is a dash
	i := 4
	for ; ; i++ {
		if i >= len(d) {
			return bad(kID, i, pos)
		}
		c := d[i]
		if c == ':' && i >= 6 && !dash {
			break
		}
		if i >= 36 || !(isAlnum(c) || c == '-' && i > 4 && i < 35) {
			return bad(kID, i, pos)
		}
		dash = c == '-'
		if i < 7 {
			informal = informal && low(c) == pre[i-4]
		} else if i == 7 {
			informal = informal && dash
		} else if informal {
			if i == 8 && (c == '0' || isAlnum(c) && !isDigit(c)) {
				return bad(kInformal, 7, pos)
			}
			if !isDigit(c) {
				badNumber = true
			}
		}
	}
	if informal && i > 8 && badNumber {
		return bad(kInformal, 7, pos)
	}
	pos[pID+1] = i
	// part: specific string, r-, q-, f-component
	part := pSS
	first := true
	pos[pSS] = i + 1
	for j := i + 1; ; j++ {
		if j >= len(d) {
			if first && part != pF {
				return bad(partKind(part), j, pos)
			}
			break
		}
		c := d[j]
		if c == '%' {
			j++
			if j >= len(d) || !isAlnum(d[j]) {
				return bad(kHex, j, pos)
			}
			j++
			if j >= len(d) || !isAlnum(d[j]) {
				return bad(kHex, j, pos)
			}
			first = false
			continue
		}
		if isPath(c) || c == '/' && (!first || part == pF) {
			first = false
			continue
		}
		if part == pF {
			if c == '?' {
				continue
			}
			return bad(kMalformed, j, pos)
		}
		if first {
			if c == '?' && part != pSS {
				// only a repeated start can follow
				if j+1 >= len(d) || d[j+1] != startOf(part) {
					return bad(partKind(part), j+1, pos)
				}
				if j+2 >= len(d) || isPath(d[j+2]) || d[j+2] == '?' || d[j+2] == '#' {
					return bad(dupKind(part), j+2, pos)
				}
				return bad(partKind(part), j+2, pos)
			}
			return bad(partKind(part), j, pos)
		}
		if c == '#' {
			pos[part+1] = j
			part = pF
			pos[pF] = j + 1
			continue
		}
		if c != '?' {
			return bad(partKind(part), j, pos)
		}
		if part == pSS {
			if j+1 >= len(d) || d[j+1] != '+' && d[j+1] != '=' {
				return bad(kMalformed, j+1, pos)
			}
			pos[pSS+1] = j
			part = pQ
			if d[j+1] == '+' {
				part = pR
			}
			j++
			pos[part] = j + 1
			first = true
			continue
		}
		// a question mark inside the r- or q-component
		if j+1 < len(d) && d[j+1] == startOf(part) && (j+2 >= len(d) || d[j+2] != '/' && (isPath(d[j+2]) || d[j+2] == '?' || d[j+2] == '#')) {
			return bad(dupKind(part), j+2, pos)
		}
		if part == pR && j+2 < len(d) && d[j+1] == '=' && isPath(d[j+2]) {
			pos[pR+1] = j
			part = pQ
			j++
			pos[pQ] = j + 1
			first = true
			continue
		}
	}
	pos[part+1] = len(d)
	return true, kOK, 0, *pos
}

func startOf(part int) byte {
	if part == pR {
		return '+'
	}
	return '='
}

func partKind(part int) int {
	switch part {
	case pR:
		return kR
	case pQ:
		return kQ
	}
	return kSS
}

func dupKind(part int) int {
	if part == pR {
		return kRDup
	}
	return kQDup
}
