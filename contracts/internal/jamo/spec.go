package jamo

import (
	"unicode/utf8"

	hangul "github.com/suapapa/go_hangul"
)

// ---- What composing means (property C01) ----

// specSyl is the syllable of pending jamo, or nothing.
func specSyl(l, m, t rune) string {
	if l == 0 && m == 0 && t == 0 {
		return ""
	}
	if l == 0 {
		l = 'ㅇ'
	}
	if m == 0 {
		m = 'ㅡ'
	}
	return string(hangul.Join(l, m, t))
}

// specCompose composes the rest of a text. The pending syllable is l, m, t, its last
// part is at position pos (0 lead, 1 medial, 2 tail), and hy tells whether a
// hyphen came right before.
func specCompose(s string, hy bool, l, m, t rune, pos int) string {
	if s == "" {
		return specSyl(l, m, t)
	}
	ch, n := utf8.DecodeRuneInString(s)
	rest := s[n:]
	if ch == '-' {
		return specCompose(rest, true, l, m, t, pos)
	}
	if !hangul.IsHangul(ch) {
		return specSyl(l, m, t) + string(ch) + specCompose(rest, false, 0, 0, 0, pos)
	}
	if hangul.IsMoeum(ch) {
		if pos < 1 {
			return specCompose(rest, false, l, ch, t, 1)
		}
		return specSyl(l, m, t) + specCompose(rest, false, 0, ch, 0, 1)
	}
	if hangul.IsJaeum(ch) {
		if !hy {
			return specSyl(l, m, t) + specCompose(rest, false, ch, 0, 0, 0)
		}
		if pos < 2 {
			return specCompose(rest, false, l, m, ch, 2)
		}
		return specSyl(l, m, t) + specCompose(rest, false, 0, 0, ch, 2)
	}
	sl, sm, st := hangul.Split(ch)
	if st == 0 {
		return specSyl(l, m, t) + specCompose(rest, false, sl, sm, 0, 1)
	}
	return specSyl(l, m, t) + specCompose(rest, false, sl, sm, st, 2)
}
