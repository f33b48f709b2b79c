package radix

import "unicode/utf8"

// lemmaKibi is a client converting a number with a unit and a suffix.
func lemmaKibi(s *trieS[any], digits, unit, suffix string) uint64 {
	return s.FromKibiBytes(digits + unit + suffix)
}

// lemmaKilo is a client converting a number with a unit and a suffix.
func lemmaKilo(s *trieS[any], digits, unit, suffix string) uint64 {
	return s.FromKiloBytes(digits + unit + suffix)
}

// modelTrimRightFunc: strings.TrimRightFunc cuts off trailing runes as long as f accepts them.
func modelTrimRightFunc(s string, f func(rune) bool) string {
	for len(s) > 0 {
		r, n := utf8.DecodeLastRuneInString(s)
		if !f(r) {
			break
		}
		s = s[:len(s)-n]
	}
	return s
}
