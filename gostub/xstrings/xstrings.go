// Package xstrings is a stand-in with the one function metac uses.
package xstrings

import (
	"strings"
	"unicode"
)

// ToSnakeCase converts names to snake_case.
func ToSnakeCase(s string) string {
	var b strings.Builder
	r := []rune(s)
	for i, c := range r {
		switch {
		case unicode.IsUpper(c):
			if i > 0 && r[i-1] != '_' && r[i-1] != ' ' && r[i-1] != '-' &&
				(!unicode.IsUpper(r[i-1]) || (i+1 < len(r) && unicode.IsLower(r[i+1]))) {
				b.WriteByte('_')
			}
			b.WriteRune(unicode.ToLower(c))
		case c == ' ' || c == '-':
			b.WriteByte('_')
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}
