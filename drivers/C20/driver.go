package furigana

import (
	"fmt"
	"strings"
	"testing"

	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
)

func TestCV(t *testing.T) {
	k := kagome.New()
	var known kagome.Token
	for _, tok := range k.Tokenize("東京") {
		if tok.Class == kagome.KNOWN {
			known = tok
		}
	}
	// one token of the dictionary by its number
	entry := func(id int) kagome.Token {
		tok := known
		tok.ID = id
		tok.Surface = fmt.Sprint("t", id)
		return tok
	}
	kinds := map[string][]kagome.Token{}
	var order []string
	const entries = 392127
	for id := 0; id < entries; id += 3 {
		tok := entry(id)
		fs := tok.Features()
		if len(fs) < 9 {
			t.Fatal("the dictionary is not as expected", id, fs)
		}
		key := fs[0] + "," + fs[1] + "," + fs[2]
		if fs[0] == "助詞" && (fs[6] == "は" || fs[6] == "へ") {
			key += fs[6]
		}
		if !strings.ContainsAny(fs[8], "ァアィイゥウェエォオ") {
			key += "-"
		}
		if len(kinds[key]) == 0 {
			order = append(order, key)
		}
		if len(kinds[key]) < 40 {
			kinds[key] = append(kinds[key], tok)
		}
	}
	// the particles in particular
	for _, s := range []string{"これは", "京都へ", "行こう", "食べようとう", "田中太郎です", "山田花子", "えーっと", "、"} {
		for _, tok := range k.Tokenize(s) {
			if tok.Class == kagome.KNOWN {
				fs := tok.Features()
				key := "text:" + fs[0] + fs[2]
				if len(kinds[key]) == 0 {
					order = append(order, key)
				}
				kinds[key] = append(kinds[key], tok)
			}
		}
	}
	names := append([]kagome.Token{}, kinds["名詞,固有名詞,人名"]...)
	names = append(names, kinds["名詞,固有名詞,人名-"]...)
	var aux, parts, signs []kagome.Token
	for _, o := range order {
		switch {
		case strings.HasPrefix(o, "助動詞"), strings.HasPrefix(o, "text:助動詞"):
			aux = append(aux, kinds[o]...)
		case strings.HasPrefix(o, "助詞"), strings.HasPrefix(o, "text:助詞"):
			parts = append(parts, kinds[o]...)
		case strings.HasPrefix(o, "記号"), strings.HasPrefix(o, "フィラー"):
			signs = append(signs, kinds[o]...)
		}
	}
	dummy := kagome.Token{ID: -1, Class: kagome.DUMMY, Surface: "BOS"}
	unknown := func(s string) kagome.Token { return kagome.Token{ID: 1, Class: kagome.UNKNOWN, Surface: s} }
	texts := []string{"ホウオウ", "a", " ", "　", "\n", "オオウ", "フー", "ウ", "漢", "\xff", "ア ア", "トウ"}
	cvRun(t, "lists of tokens: known ones of every kind of the dictionary, unknown ones and dummies; non-trivial: a name, an auxiliary, a particle or a dummy beside other tokens", func(c *cvCtx) {
		try := func(toks []kagome.Token) {
			nontrivial := false
			desc := ""
			for _, tok := range toks {
				nontrivial = nontrivial || len(toks) > 1 && (specDummy(tok) || specAuxiliary(tok) || specName(tok))
				switch tok.Class {
				case kagome.KNOWN:
					fs := tok.Features()
					desc += fmt.Sprintf("[%s %s %s %s]", fs[0], fs[2], fs[6], fs[8])
				case kagome.DUMMY:
					desc += "[dummy]"
				default:
					desc += fmt.Sprintf("[unknown %q]", tok.Surface)
				}
			}
			c.Case(desc, nontrivial, func() string {
				tw := newTypewriter(append([]kagome.Token{}, toks...))
				got := tw.Typewrite()
				if m := cvDiff("Typewrite", got, specTypewrite(toks, false)); m != "" {
					return m
				}
				return cvDiff("Typewrite again", tw.Typewrite(), got)
			})
		}
		try(nil)
		for _, o := range order {
			for i, tok := range kinds[o] {
				try([]kagome.Token{tok})
				if i < 3 {
					for _, n := range []int{1, 5, 9} {
						try([]kagome.Token{names[n], tok})
						try([]kagome.Token{tok, names[n]})
						try([]kagome.Token{names[n], tok, names[n]})
						try([]kagome.Token{names[n], tok, dummy, aux[n], names[n]})
						try([]kagome.Token{unknown("ホウ"), tok, aux[n], aux[n+1]})
					}
				}
			}
		}
		some := func() kagome.Token {
			from := func(l []kagome.Token) kagome.Token { return l[c.Rand.Intn(len(l))] }
			switch c.Rand.Intn(9) {
			case 0:
				return dummy
			case 1, 2:
				return from(names)
			case 3, 4:
				return from(aux)
			case 5:
				return from(parts)
			case 6:
				return from(signs)
			case 7:
				return unknown(c.Pick(texts))
			}
			if c.Rand.Intn(2) == 0 {
				return entry(c.Rand.Intn(entries))
			}
			return from(kinds[c.Pick(order)])
		}
		for c.More() {
			var toks []kagome.Token
			for n := c.Rand.Intn(8); n >= 0; n-- {
				toks = append(toks, some())
			}
			try(toks)
		}
	})
}
