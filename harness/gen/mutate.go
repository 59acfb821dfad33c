package gen

import (
	"math/rand/v2"
	"strings"
)

var soup = []string{
	"a", "b1", "name", "not", "NOT", "and", "or", "&&", "||", "&", "|", "=", "==", "!=", "<>", ">", ">=", "<", "<=", "gt", "gte", "lt", "lte", "eq", "neq", "like", "not like", "in", "not in",
	"is null", "is not null", "isnull", "notnull", "is true", "is not false", "is", "between", "not between", "BETWEEN", "IS NULL", "and 2", "between 1 and 2", "between [1,2]",
	"(", ")", "[", "]", ",", ".", "->", "'", `"`, "''", "'x'", `"y"`, "0", "1", "01", "10", "-1", "1.5", "9223372036854775807", "9223372036854775808", "99999999999999999999", "true", "false", "TRUE", "null", "NULL", "True",
	"f(", "date(", "a.b", "a.b.c", "a->b", "a->b->c", " ", "  ", "\t", "\n", "\r", "\r\n", "--", "//", "--c\n", "//c\r", "/*", "*/", ";", "?", "$", "\\", "%", "*", "+", "@", "#", ":", "!", "é", "\x00", "\xff", "\xc3", "\u00a0",
}

// Soup glues random tokens together.
func Soup(r *rand.Rand) string {
	var b strings.Builder
	for i := 1 + r.IntN(14); i > 0; i-- {
		b.WriteString(Pick(r, soup))
		if r.IntN(2) == 0 {
			b.WriteByte(' ')
		}
	}
	return b.String()
}

const byteAlphabet = "()[]'\"ab =<>!&|,.-/\n\r\t0129_notrulefsgqbwk"

// Bytes makes arbitrary bytes.
func Bytes(r *rand.Rand, max int) string {
	b := make([]byte, r.IntN(max))
	mode := r.IntN(3)
	for i := range b {
		switch mode {
		case 0:
			b[i] = byte(r.IntN(256))
		case 1:
			b[i] = byte(r.IntN(128))
		default:
			b[i] = byteAlphabet[r.IntN(len(byteAlphabet))]
		}
	}
	return string(b)
}

// Mutate changes a text a little.
func Mutate(r *rand.Rand, s string) string {
	for i := 1 + r.IntN(3); i > 0; i-- {
		b := []byte(s)
		p := 0
		if len(b) > 0 {
			p = r.IntN(len(b) + 1)
		}
		switch r.IntN(9) {
		case 0: // insert token
			s = s[:p] + Pick(r, soup) + s[p:]
		case 1: // delete a byte
			if p < len(b) {
				s = s[:p] + s[p+1:]
			}
		case 2: // delete a span
			q := p + r.IntN(6)
			if q > len(b) {
				q = len(b)
			}
			s = s[:p] + s[q:]
		case 3: // duplicate a span
			q := p + r.IntN(10)
			if q > len(b) {
				q = len(b)
			}
			s = s[:q] + s[p:q] + s[q:]
		case 4: // flip a byte
			if p < len(b) {
				b[p] ^= 1 << r.IntN(8)
				s = string(b)
			}
		case 5: // swap case
			if p < len(b) && (b[p]|32) >= 'a' && (b[p]|32) <= 'z' {
				b[p] ^= 32
				s = string(b)
			}
		case 6: // truncate
			s = s[:p]
		case 7: // remove a blank
			if j := strings.IndexAny(s[p:], " \t\n\r"); j >= 0 {
				s = s[:p+j] + s[p+j+1:]
			}
		case 8: // insert a blank
			s = s[:p] + Blank(r) + s[p:]
		}
	}
	return s
}

// Mangle makes a name that is almost the given one.
func Mangle(r *rand.Rand, s string) string {
	if s == "" {
		return "a"
	}
	b := []byte(s)
	i := r.IntN(len(b))
	switch r.IntN(8) {
	case 0, 1:
		i = r.IntN(len(b) + 1)
		c := Pick(r, []byte("_aAsSzZ019"))
		if r.IntN(3) == 0 {
			i = len(b)
		}
		return s[:i] + string(c) + s[i:]
	case 2:
		return s + "_"
	case 3:
		return s[:i] + s[i+1:]
	case 4:
		return s[:i] + s[i:i+1] + s[i:]
	case 5:
		b[i] = Pick(r, []byte("_aAzZ09"))
	case 6:
		j := r.IntN(len(b))
		b[i], b[j] = b[j], b[i]
	case 7:
		return s[:(len(s)+1)/2]
	}
	return string(b)
}
