package jamo

import "testing"

func TestCV(t *testing.T) {
	alpha := []string{"ㄱ", "ㅏ", "-ㄴ", "가", "각", "-", "x", "ㅇ", "ㅡ", "-ㅇ", "ㅢ", "ㄲ", "-ㄶ", "ㄸ", "ㅉ", "한", " ", "\xff", "-ㅏ", "ㅣ", "힣", "ᄀ", "ㆍ", "é", "-가"}
	cvRun(t, "all joinings of few and random joinings of many jamo, syllables, hyphens and other characters; non-trivial: at least two characters", func(c *cvCtx) {
		try := func(s string) {
			c.Case(s, len(s) > 3, func() string { return cvDiff("ComposeHangul", ComposeHangul(s), specCompose(s, false, 0, 0, 0, 0)) })
		}
		c.All(alpha, 3, try)
		// every single Hangul character, alone and after others
		for r := rune(0x1100); r <= 0xd7ff && c.More(); r++ {
			if r > 0x3200 && r < 0xac00 {
				continue
			}
			try(string(r))
			try("-" + string(r))
			try("ㄱ" + string(r))
			try("가" + string(r) + "-ㄴ")
		}
		for c.More() {
			try(c.Str(alpha, 12))
		}
	})
}
