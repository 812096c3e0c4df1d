// Package jsonm models encoding/json for strings. The engine executes it in place of the reflective library code;
// its agreement with encoding/json is tested natively (see jsonm_test.go).
package jsonm

import (
	"unicode/utf8"

	"vh/vx"
)

const hex = "0123456789abcdef"

func plainEnc(c byte) bool {
	return c >= 0x20 && c < 0x7f && c != '"' && c != '\\' && c != '<' && c != '>' && c != '&'
}

// EncodeString is json.Marshal of a string.
func EncodeString(s string) []byte {
	ok := true
	for i := 0; i < len(s); i++ {
		if !plainEnc(s[i]) {
			ok = false
			break
		}
	}
	if !vx.Feasible(!ok) {
		return []byte(`"` + s + `"`)
	}
	dst := append([]byte(nil), '"')
	for i := 0; i < len(s); {
		b := s[i]
		if b < utf8.RuneSelf {
			i++
			switch {
			case plainEnc(b) || b == 0x7f:
				dst = append(dst, b)
			case b == '\\' || b == '"':
				dst = append(dst, '\\', b)
			case b == '\b':
				dst = append(dst, '\\', 'b')
			case b == '\f':
				dst = append(dst, '\\', 'f')
			case b == '\n':
				dst = append(dst, '\\', 'n')
			case b == '\r':
				dst = append(dst, '\\', 'r')
			case b == '\t':
				dst = append(dst, '\\', 't')
			default:
				dst = append(dst, '\\', 'u', '0', '0', hex[b>>4], hex[b&0xF])
			}
			continue
		}
		c, size := utf8.DecodeRuneInString(s[i:])
		if c == utf8.RuneError && size == 1 {
			dst = append(dst, "\ufffd"...)
			i += size
			continue
		}
		if c == '\u2028' || c == '\u2029' {
			dst = append(dst, '\\', 'u', '2', '0', '2', hex[c&0xF])
			i += size
			continue
		}
		dst = append(dst, s[i:i+size]...)
		i += size
	}
	return append(dst, '"')
}

func isSpace(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' }

func trim(b []byte) []byte {
	i, j := 0, len(b)
	for i < j && isSpace(b[i]) {
		i++
	}
	for j > i && isSpace(b[j-1]) {
		j--
	}
	return b[i:j]
}

func hexv(c byte) int {
	switch {
	case '0' <= c && c <= '9':
		return int(c - '0')
	case 'a' <= c && c <= 'f':
		return int(c-'a') + 10
	case 'A' <= c && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

func u4(b []byte) int {
	r := 0
	for _, c := range b[:4] {
		h := hexv(c)
		if h < 0 {
			return -1
		}
		r = r*16 + h
	}
	return r
}

// DecodeString is json.Unmarshal into a string: 0 an error, 1 a string, 2 a null.
func DecodeString(doc []byte) (string, int) {
	b := trim(doc)
	if len(b) == 4 && b[0] == 'n' && b[1] == 'u' && b[2] == 'l' && b[3] == 'l' {
		return "", 2
	}
	if len(b) < 2 || b[0] != '"' || b[len(b)-1] != '"' {
		return "", 0
	}
	b = b[1 : len(b)-1]
	ok := true
	for i := 0; i < len(b); i++ {
		c := b[i]
		if c < 0x20 || c == '"' || c == '\\' || c >= utf8.RuneSelf {
			ok = false
			break
		}
	}
	if !vx.Feasible(!ok) {
		return string(b), 1
	}
	var out []byte
	for i := 0; i < len(b); {
		c := b[i]
		switch {
		case c < 0x20 || c == '"':
			return "", 0
		case c == '\\':
			if i+1 >= len(b) {
				return "", 0
			}
			e := b[i+1]
			i += 2
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				if i+4 > len(b) {
					return "", 0
				}
				r := u4(b[i:])
				if r < 0 {
					return "", 0
				}
				i += 4
				if r >= 0xD800 && r < 0xE000 {
					lo := -1
					if i+6 <= len(b) && b[i] == '\\' && b[i+1] == 'u' {
						lo = u4(b[i+2:])
					}
					if r < 0xDC00 && lo >= 0xDC00 && lo < 0xE000 {
						r = (r-0xD800)<<10 | (lo - 0xDC00) + 0x10000
						i += 6
					} else {
						r = utf8.RuneError
					}
				}
				out = utf8.AppendRune(out, rune(r))
			default:
				return "", 0
			}
		case c < utf8.RuneSelf:
			out = append(out, c)
			i++
		default:
			r, n := utf8.DecodeRune(b[i:])
			out = utf8.AppendRune(out, r)
			i += n
		}
	}
	return string(out), 1
}

// TrimDoc gives what json.Unmarshal hands to an UnmarshalJSON method: the document without the blanks around it,
// false when it is not valid. Only strings and null are modelled.
func TrimDoc(doc []byte) ([]byte, bool) {
	b := trim(doc)
	if _, k := DecodeString(b); k != 0 {
		return b, true
	}
	return nil, false
}

type compactError struct{}

func (compactError) Error() string { return "json: invalid output of a MarshalJSON method" }

// Compact is what json.Marshal does with the output of a MarshalJSON method (strings and null).
func Compact(doc []byte) ([]byte, error) {
	b := trim(doc)
	if _, k := DecodeString(b); k == 0 {
		return nil, compactError{}
	}
	ok := true
	for i := 0; i < len(b); i++ {
		if c := b[i]; c == '<' || c == '>' || c == '&' || c >= utf8.RuneSelf {
			ok = false
			break
		}
	}
	if !vx.Feasible(!ok) {
		return append([]byte(nil), b...), nil
	}
	var out []byte
	for i := 0; i < len(b); i++ {
		c := b[i]
		switch {
		case c == '<' || c == '>' || c == '&':
			out = append(out, '\\', 'u', '0', '0', hex[c>>4], hex[c&0xF])
		case c == 0xE2 && i+2 < len(b) && b[i+1] == 0x80 && b[i+2]&^1 == 0xA8:
			out = append(out, '\\', 'u', '2', '0', '2', hex[b[i+2]&0xF])
			i += 2
		default:
			out = append(out, c)
		}
	}
	return out, nil
}
