package furigana

import (
	"fmt"
	"testing"
	"unicode/utf8"
)

func TestCV(t *testing.T) {
	var kana, pieces []string
	for r := rune(0x3098); r <= 0x3100; r++ {
		kana = append(kana, string(r))
	}
	vowels := []string{"ァ", "ア", "ィ", "イ", "ゥ", "ウ", "ェ", "エ", "ォ", "オ"}
	pieces = append(append([]string{}, kana...), "a", "漢", "あ", "う", " ", "\x00", "\xff", "한", "é", "𠮷")
	cvRun(t, "every pair of a character of the Katakana block and a vowel, with every small offset, then random texts; non-trivial: a vowel that is not at the start", func(c *cvCtx) {
		try := func(w string, offset int) {
			nontrivial := false
			for i, r := range w {
				for _, v := range vowels {
					nontrivial = nontrivial || i > 0 && string(r) == v
				}
			}
			c.Case(fmt.Sprintf("%q after %d", w, offset), nontrivial, func() string {
				got := mergeLongVowels(w, offset)
				if m := cvDiff("mergeLongVowels", got, specLong(w, 0, offset)); m != "" {
					return m
				}
				if m := cvDiff("number of characters", utf8.RuneCountInString(got), utf8.RuneCountInString(w)); m != "" {
					return m
				}
				return cvDiff("mergeLongVowels again", mergeLongVowels(w, offset), got)
			})
		}
		for _, k := range pieces {
			for _, m := range vowels {
				for o := -1; o < 3; o++ {
					try(k+m, o)
				}
				try("한"+k+m, 2)
				try("한"+k+m, 3)
				try(k+m+m, 0)
				try(k+m+m, 2)
			}
		}
		for c.More() {
			w := ""
			for n := c.Rand.Intn(9); n > 0; n-- {
				if c.Rand.Intn(2) == 0 {
					w += c.Pick(vowels)
				} else {
					w += c.Pick(pieces)
				}
			}
			if c.Rand.Intn(50) == 0 {
				for k := c.Rand.Intn(7); k > 0; k-- {
					w += w
				}
			}
			try(w, c.Rand.Intn(utf8.RuneCountInString(w)+3)-1)
		}
	})
}
