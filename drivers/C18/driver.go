package furigana

import (
	"testing"
	"unicode/utf8"
)

func TestCV(t *testing.T) {
	var kana, pieces []string
	for r := rune(0x3038); r <= 0x3108; r++ {
		kana = append(kana, string(r))
	}
	marks := []string{"ゝ", "ゞ", "ヽ", "ヾ"}
	pieces = append(append([]string{}, kana...), "a", "漢", "々", " ", "\x00", "\xff", "한", "é", "𠮷")
	cvRun(t, "every character of the kana blocks before every one or two marks, then random texts of kana, marks and others; non-trivial: a mark that is not at the start", func(c *cvCtx) {
		try := func(w string) {
			nontrivial := false
			for i, r := range w {
				if i > 0 && (r == 'ゝ' || r == 'ゞ' || r == 'ヽ' || r == 'ヾ') {
					nontrivial = true
				}
			}
			c.Case(w, nontrivial, func() string {
				got := repeatKana(w)
				if m := cvDiff("repeatKana", got, specRepeat(w, 0)); m != "" {
					return m
				}
				if m := cvDiff("number of characters", utf8.RuneCountInString(got), utf8.RuneCountInString(w)); m != "" {
					return m
				}
				return cvDiff("repeatKana again", repeatKana(w), got)
			})
		}
		for _, k := range pieces {
			for _, m := range marks {
				try(k + m)
				try("a" + k + m + k)
				for _, m2 := range marks {
					try(k + m + m2)
					for _, m3 := range marks {
						try(k + m + m2 + m3)
					}
				}
			}
		}
		for c.More() {
			w := ""
			for n := c.Rand.Intn(9); n > 0; n-- {
				if c.Rand.Intn(2) == 0 {
					w += c.Pick(marks)
				} else {
					w += c.Pick(pieces)
				}
			}
			if c.Rand.Intn(50) == 0 {
				for k := c.Rand.Intn(7); k > 0; k-- {
					w += w
				}
			}
			try(w)
		}
	})
}
