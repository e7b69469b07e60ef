package hangulize

import (
	"fmt"
	"sort"
	"strings"
	"testing"
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
)

// cvScript is a script described by the Unicode tables.
type cvScript struct {
	is     func(rune) bool
	normal func(rune) rune
}

func (s cvScript) Is(ch rune) bool             { return s.is(ch) }
func (s cvScript) Normalize(ch rune) rune      { return s.normal(ch) }
func (s cvScript) LocalizePunct(ch rune) string { return string(ch) }

func TestCV(t *testing.T) {
	same := func(ch rune) rune { return ch }
	in := func(ts ...*unicode.RangeTable) func(rune) bool {
		return func(ch rune) bool { return unicode.In(ch, ts...) }
	}
	kana := in(unicode.Hiragana, unicode.Katakana)
	all := map[string]script{
		"Cyrl": cvScript{in(unicode.Cyrillic, unicode.M), unicode.ToLower},
		"Grek": cvScript{in(unicode.Greek), unicode.ToLower},
		"Geor": cvScript{in(unicode.Georgian), same},
		"Latn": cvScript{in(unicode.Latin), func(ch rune) rune {
			base, _ := utf8.DecodeRuneInString(norm.NFD.String(string(ch)))
			return unicode.ToLower(base)
		}},
		"Hrkt": cvScript{func(ch rune) bool { return ch == 'ー' || kana(ch) }, func(ch rune) rune {
			if ch >= 0x3040 && ch <= 0x309f {
				return ch + 0x60
			}
			return ch
		}},
	}
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)

	letters := []string{"a", "É", "é", "e\u0301", "Ñ", "n", "и", "Й", "й", "Α", "ά", "ა", "Ⴀ", "か", "カ", "ー", "。", "ß", "Ǆ", "İ", "ſ", "K", "한", "1", " ", "\xff", "-", "ab", "Ab", "ヷ", "ゟ"}
	cvRun(t, "every code point with every script, and random texts with random normalization tables, seen by the tracing function; non-trivial: a text with a letter of the script and a table", func(c *cvCtx) {
		run := func(name string, table [][2]string, word string) {
			src := "lang:\n    id = \"x\"\n    codes = \"xx\", \"xxx\"\n    script = \"" + name + "\"\n"
			targets := map[string][]string{}
			except := map[rune]bool{}
			for _, e := range table {
				targets[e[1]] = append(targets[e[1]], e[0])
				for _, ch := range e[1] {
					except[ch] = true
				}
			}
			if len(table) > 0 {
				src += "normalize:\n"
				var keys []string
				for k := range targets {
					keys = append(keys, k)
				}
				sort.Strings(keys)
				for _, k := range keys {
					src += "    \"" + k + "\" = \"" + strings.Join(targets[k], "\", \"") + "\"\n"
				}
			}
			nontrivial := false
			for _, ch := range word {
				nontrivial = nontrivial || len(table) > 0 && all[name].Is(ch)
			}
			c.Case(fmt.Sprintf("%s %q %q", name, table, word), nontrivial, func() string {
				spec, err := ParseSpec(strings.NewReader(src))
				if err != nil {
					return "ParseSpec: " + err.Error()
				}
				got, normalized := word, false
				h := New(spec)
				h.Trace(func(e Trace) {
					if e.Step == "Normalize" {
						got, normalized = e.Word, true
					}
				})
				if _, err := h.Hangulize(word); err != nil {
					return "Hangulize: " + err.Error()
				}
				// the replacements: the leftmost one, then the longest one
				replaced := ""
				for i := 0; i < len(word); {
					best := -1
					for k, e := range table {
						if strings.HasPrefix(word[i:], e[0]) && (best < 0 || len(e[0]) > len(table[best][0]) ||
							len(e[0]) == len(table[best][0]) && e[1] < table[best][1]) {
							best = k
						}
					}
					if best < 0 {
						replaced += word[i : i+1]
						i++
						continue
					}
					replaced += table[best][1]
					i += len(table[best][0])
				}
				want := specNormal(all[name], except, replaced)
				if !normalized && want == word {
					return ""
				}
				return cvDiff("the normalized word", got, want)
			})
		}
		for _, n := range names {
			run(n, nil, "")
			for _, l := range letters {
				run(n, nil, l)
				if !utf8.ValidString(l) {
					continue
				}
				run(n, [][2]string{{l, "x"}}, "a"+l+"b")
				run(n, [][2]string{{"q", l}}, "q"+l+"b")
			}
		}
		pos := rune(0)
		sweep := func() {
			if pos > unicode.MaxRune {
				return
			}
			w := ""
			for k := 0; k < 128; k++ {
				w += string(pos + rune(k))
			}
			pos += 128
			for _, n := range names {
				run(n, nil, w)
			}
		}
		for c.More() {
			sweep()
			n := c.Pick(names)
			var table [][2]string
			used := map[string]bool{}
			for k := c.Rand.Intn(4); k > 0; k-- {
				f, to := c.Pick(letters)+c.Str(letters, 1), c.Str(letters, 2)
				if !used[f+"\x00"+to] && utf8.ValidString(f+to) && to != "" {
					used[f+"\x00"+to] = true
					table = append(table, [2]string{f, to})
				}
			}
			run(n, table, c.Str(letters, 8))
		}
	})
}
