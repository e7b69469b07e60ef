package pinyin

import (
	"fmt"
	"strings"
	"testing"

	"golang.org/x/text/unicode/norm"
)

func TestCV(t *testing.T) {
	pieces := []string{"中", "国", "北", "京", "行", "a", "b", " ", "\u200b", "é", "e\u0301", "한", "ᄒ", "ᅡ", "か", "\u3099", "\x00", "\xff", "𠮷", "㐀", "\uf900", "嗯", "呣", "〇", "-", "𪜀", "\ufffd"}
	cvRun(t, "every short text of known and unknown characters, every character of the planes, then random texts; non-trivial: a known and an unknown character beside each other", func(c *cvCtx) {
		try := func(w string) {
			nontrivial := false
			for i, r := range w {
				nontrivial = nontrivial || i > 0 && r >= 0x4e00 && r < 0xa000
			}
			c.Case(fmt.Sprintf("%q", w), nontrivial, func() string {
				got, err := T.Transliterate(w)
				if err != nil {
					return "an error: " + err.Error()
				}
				return cvDiff("Transliterate", got, strings.Join(specPieces(norm.NFC.String(w), ""), "\u200b"))
			})
		}
		try("")
		for _, a := range pieces {
			try(a)
			for _, b := range pieces {
				try(a + b)
				for _, d := range pieces {
					try(a + b + d)
				}
			}
		}
		for r := rune(0); r < 0x30000 && c.More(); r += 1 + rune(c.Rand.Intn(7)) {
			try("中" + string(r) + "国")
		}
		for c.More() {
			w := ""
			for n := c.Rand.Intn(12); n > 0; n-- {
				if c.Rand.Intn(4) == 0 {
					w += string(rune(0x4e00 + c.Rand.Intn(0x5200)))
				} else {
					w += c.Pick(pieces)
				}
			}
			try(w)
		}
	})
}
