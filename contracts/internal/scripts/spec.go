package scripts

import (
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
)

// Executable specification of the scripts (properties C11 and C13).

// specPunct is the Korean form of a Japanese punctuation.
func specPunct(punct rune) string {
	switch punct {
	case '。':
		return ". "
	case '、':
		return ", "
	case '：':
		return ": "
	case '！':
		return "! "
	case '？':
		return "? "
	case '〜':
		return "~"
	case '「':
		return " '"
	case '」':
		return "' "
	case '『':
		return " \""
	case '』':
		return "\" "
	}
	return string(punct)
}

// specKatakana is the Katakana counterpart of a Hiragana. The blocks are laid
// out alike.
func specKatakana(ch rune) rune {
	if ch >= 0x3040 && ch <= 0x309f {
		return ch - 0x3040 + 0x30a0
	}
	return ch
}

// specIsKana tells whether a character is a Japanese syllable.
func specIsKana(ch rune) bool {
	return ch == 'ー' || unicode.In(ch, unicode.Hiragana, unicode.Katakana)
}

// specLatin is the lower-cased base letter: the first character of the canonical
// decomposition, if there is one.
func specLatin(ch rune) rune {
	base := ch
	d := norm.NFD.PropertiesString(string(ch)).Decomposition()
	if len(d) != 0 {
		base, _ = utf8.DecodeRune(d)
	}
	return unicode.ToLower(base)
}
