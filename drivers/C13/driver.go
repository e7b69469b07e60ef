package hangulize

import (
	"fmt"
	"testing"
	"unicode"

	"github.com/hangulize/hangulize/internal/scripts"
)

// cvForms gives the Korean forms of a script from a table.
type cvForms struct {
	script
	forms map[rune]string
}

func (f cvForms) LocalizePunct(ch rune) string {
	if s, ok := f.forms[ch]; ok {
		return s
	}
	return string(ch)
}

func TestCV(t *testing.T) {
	forms := map[rune]string{
		'。': ". ", '、': ", ", '：': ": ", '！': "! ", '？': "? ", '〜': "~",
		'「': " '", '」': "' ", '『': " \"", '』': "\" ",
	}
	type oneScript struct {
		name string
		real script
		spec script
	}
	all := []oneScript{
		{"Hrkt", scripts.Hrkt{}, cvForms{scripts.Hrkt{}, forms}},
		{"Latn", scripts.Latn{}, cvForms{scripts.Latn{}, nil}},
		{"Cyrl", scripts.Cyrl{}, cvForms{scripts.Cyrl{}, nil}},
		{"Grek", scripts.Grek{}, cvForms{scripts.Grek{}, nil}},
		{"Geor", scripts.Geor{}, cvForms{scripts.Geor{}, nil}},
	}
	pieces := []string{"a", "か", "한", "。", "、", "「", "」", "『", "』", "！", "〜", "：", "？", " ", "　", "\u200b", ".", "-", "\n", "0", "\xff", "・", "ー", "…", "'", "\u00a0", "+", "«", "\u00ad", "𐄀"}
	cvRun(t, "every short text of punctuation, spaces, zero-width spaces and letters, every character alone and between others, then random texts; non-trivial: a punctuation beside another character", func(c *cvCtx) {
		try := func(s oneScript, w string) {
			chars := []rune(w)
			nontrivial := false
			for _, ch := range chars {
				nontrivial = nontrivial || len(chars) > 1 && unicode.IsPunct(ch)
			}
			c.Case(fmt.Sprintf("%s %q", s.name, w), nontrivial, func() string {
				spec := &Spec{}
				spec.script = s.real
				p := newProcedure(spec, nil, nil)
				return cvDiff("localize", p.localize(w), specLocalize(s.spec, chars, len(chars)))
			})
		}
		for n := 0; n <= 2; n++ {
			var rec func(pre string, n int)
			rec = func(pre string, n int) {
				if n == 0 {
					for _, s := range all {
						try(s, pre)
					}
					return
				}
				for _, x := range pieces {
					rec(pre+x, n-1)
				}
			}
			rec("", n)
		}
		c.All(pieces, 3, func(w string) { try(all[0], w) })
		for r := rune(0); r < 0x11000 && c.More(); r++ {
			s := all[int(r)%len(all)]
			try(s, string(r))
			try(s, "a"+string(r)+"b")
			try(s, "。"+string(r)+"「")
			try(all[0], "a"+string(r)+"b")
		}
		for c.More() {
			w := c.Str(pieces, 12)
			if c.Rand.Intn(3) == 0 {
				w += string(rune(c.Rand.Intn(0x3100))) + c.Str(pieces, 5)
			}
			try(all[c.Rand.Intn(len(all))], w)
		}
	})
}
