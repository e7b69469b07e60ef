package pinyin

import (
	"strings"

	"golang.org/x/text/unicode/norm"
)

//cv:pure ext:github.com/mozillazg/go-pinyin.SinglePinyin
//cv:pure ext:github.com/mozillazg/go-pinyin.NewArgs
//cv:pure ext:(golang.org/x/text/unicode/norm.Form).String

//cv:props (*pinyin).Transliterate C21
//cv:ensures (*pinyin).Transliterate joins the readings and the runs of other characters
func read(old_word, ret0 string) bool {
	return ret0 == strings.Join(specPieces(norm.NFC.String(old_word), ""), "\u200b")
}

//cv:ensures (*pinyin).Transliterate never fails
func noError(ret1 error) bool { return ret1 == nil }

//cv:invariant (*pinyin).Transliterate
func reading(chunks []string, buf, rest, old_word string) bool {
	return cvEq(append(append([]string{}, chunks...), specPieces(rest, buf)...), specPieces(norm.NFC.String(old_word), ""))
}

func cvEq[T any](a, b T) bool { return true }
