package pinyin

import (
	"unicode/utf8"

	goPinyin "github.com/mozillazg/go-pinyin"
)

// Executable specification of Pinyin (property C21).

// specPieces splits the rest of a text into the readings of known characters and
// the runs of other ones. run is the run just before the rest.
func specPieces(s, run string) []string {
	if s == "" {
		if run == "" {
			return nil
		}
		return []string{run}
	}
	ch, n := utf8.DecodeRuneInString(s)
	readings := goPinyin.SinglePinyin(ch, goPinyin.NewArgs())
	if len(readings) == 0 {
		return specPieces(s[n:], run+string(ch))
	}
	if run == "" {
		return append([]string{readings[0]}, specPieces(s[n:], "")...)
	}
	return append([]string{run, readings[0]}, specPieces(s[n:], "")...)
}
