package utils

import (
	"unicode/utf8"

	"github.com/typescript-eslint/tsgolint/internal/vrt"
)

func vHex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// vDecode reads a whole single-quoted ECMAScript string literal (ECMA-262
// 12.9.4, strict mode) and gives the text it denotes.
func vDecode(s string) (string, string) {
	if len(s) < 2 || s[0] != '\'' || s[len(s)-1] != '\'' {
		return "", "not enclosed in single quotes"
	}
	s = s[1 : len(s)-1]
	var out []byte
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == '\'':
			return "", "an unescaped quote ends the literal early"
		case c == '\n' || c == '\r':
			return "", "a raw line terminator"
		case c != '\\':
			out = append(out, c)
			i++
			continue
		}
		i++
		if i >= len(s) {
			return "", "the closing quote is escaped"
		}
		c = s[i]
		i++
		switch c {
		case 'n':
			out = append(out, '\n')
		case 't':
			out = append(out, '\t')
		case 'r':
			out = append(out, '\r')
		case 'b':
			out = append(out, '\b')
		case 'f':
			out = append(out, '\f')
		case 'v':
			out = append(out, '\v')
		case 'x', 'u':
			n, v := 2, 0
			if c == 'u' {
				n = 4
				if i < len(s) && s[i] == '{' {
					j := i + 1
					for j < len(s) && s[j] != '}' {
						h := vHex(s[j])
						if h < 0 {
							return "", "bad unicode escape"
						}
						v = v*16 + h
						j++
					}
					if j >= len(s) || j == i+1 || v > 0x10ffff {
						return "", "bad unicode escape"
					}
					out = utf8.AppendRune(out, rune(v))
					i = j + 1
					continue
				}
			}
			if i+n > len(s) {
				return "", "short escape"
			}
			for k := 0; k < n; k++ {
				h := vHex(s[i+k])
				if h < 0 {
					return "", "bad hexadecimal escape"
				}
				v = v*16 + h
			}
			i += n
			if v >= 0xd800 && v < 0xdc00 && i+6 <= len(s) && s[i] == '\\' && s[i+1] == 'u' {
				w := 0
				for k := 2; k < 6; k++ {
					w = w*16 + vHex(s[i+k])
				}
				if w >= 0xdc00 && w < 0xe000 {
					v = 0x10000 + (v-0xd800)<<10 + (w - 0xdc00)
					i += 6
				}
			}
			out = utf8.AppendRune(out, rune(v))
		case '0':
			if i < len(s) && s[i] >= '0' && s[i] <= '9' {
				return "", "legacy octal escape"
			}
			out = append(out, 0)
		case '1', '2', '3', '4', '5', '6', '7', '8', '9':
			return "", "legacy octal escape"
		case '\n', '\r':
			return "", "a line continuation"
		default:
			out = append(out, c)
		}
	}
	return string(out), ""
}

func vQuote(s string) {
	vrt.Assume(utf8.ValidString(s))
	q := QuoteSingleStringLiteral(s)
	vrt.Observe("q", q)
	got, bad := vDecode(q)
	vrt.Assert(bad == "", "the quoted text is one well-formed string literal")
	vrt.Assert(got == s, "the literal denotes the original text")
	vrt.Reach("quoted")
}

// Every valid UTF-8 text of up to 3 bytes.
//
//vrt:opt must=quoted weight=20
func Verif_QuoteShort() { vQuote(vrt.Str("s", 3)) }

// Every 4-byte code point sequence after a backslash.
//
//vrt:opt must=quoted
func Verif_QuoteAstral() {
	s := vrt.StrN("s", 4)
	vrt.Assume(s[0] >= 0xc0)
	vQuote("\\" + s)
}

// Every valid UTF-8 text of 4 or 5 bytes.
//
//vrt:opt must=quoted tier=thorough weight=40
func Verif_QuoteLong() { vQuote(vrt.StrN("a", 3) + vrt.Str("s", 2)) }
