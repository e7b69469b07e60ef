package hangulize

import (
	"strings"
	"unicode"
	"unicode/utf8"
)

// ---- Localization (property C13) ----

// specEdge tells whether the position i of a text lets the spaces of a form next
// to it be trimmed: the edge of the text, a punctuation character or a space.
func specEdge(chars []rune, i int) bool {
	return i < 0 || i >= len(chars) || unicode.IsPunct(chars[i]) || unicode.IsSpace(chars[i])
}

// specLocal is the localized form of the character at position i of a text.
func specLocal(s script, chars []rune, i int) string {
	ch := chars[i]
	if ch == '\u200b' {
		return ""
	}
	if !unicode.IsPunct(ch) {
		return string(ch)
	}
	form := s.LocalizePunct(ch)
	if specEdge(chars, i-1) {
		form = strings.TrimLeftFunc(form, unicode.IsSpace)
	}
	if specEdge(chars, i+1) {
		form = strings.TrimRightFunc(form, unicode.IsSpace)
	}
	return form
}

// specLocalize is the localized form of the first n characters of a text.
func specLocalize(s script, chars []rune, n int) string {
	if n <= 0 {
		return ""
	}
	return specLocalize(s, chars, n-1) + specLocal(s, chars, n-1)
}

var _ = utf8.RuneLen

// ---- Normalization (property C11) ----

// specNormal is the normal form of a text, character by character.
func specNormal(s script, except map[rune]bool, text string) string {
	if text == "" {
		return ""
	}
	ch, n := utf8.DecodeRuneInString(text)
	if except[ch] || !s.Is(ch) {
		return string(ch) + specNormal(s, except, text[n:])
	}
	return string(s.Normalize(ch)) + specNormal(s, except, text[n:])
}
