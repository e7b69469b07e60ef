package hre

import (
	"fmt"
	"testing"
)

func TestCV(t *testing.T) {
	macros := map[string]string{"@": "<vowels>", "%": "[xy]"}
	vars := map[string][]string{"vowels": {"a", "e"}, "b": {"b", "bb", "é"}, "one": {"한"}}
	atoms := []string{"a", "b", "é", "한", ".", "[ab]", "[^b]", "(a|bc)", "(?:é|b)", "<b>", "<one>", "@", "%", "a+", "b*a", "(a)?b", "<b>?a", "x", `\.`, "(a(b)?)", "e{1,2}"}
	before := []string{"", "", "", "^", "^^", "{a}", "{~b}", "{~é|한}", "^{a}", "{<b>}", "{~@}", "{~(a)b}", "{b.}", "{~.+}"}
	after := []string{"", "", "", "$", "$$", "{a}", "{~b}", "{~한é}", "{b}$", "{~<b>}", "{@}", "{~.*a}", "{~(é|b)a}", "{~x(y)?}"}
	letters := []string{"a", "b", "e", "é", "한", "x", "y", ".", " ", "{}", "\xff", "c", "ab"}
	cvRun(t, "patterns of one to three non-empty items between lookarounds and edges, random words and limits; non-trivial: at least two matches", func(c *cvCtx) {
		for c.More() {
			expr := c.Pick(before)
			for k := c.Rand.Intn(3); k >= 0; k-- {
				expr += c.Pick(atoms)
			}
			expr += c.Pick(after)
			p, err := NewPattern(expr, macros, vars)
			if err != nil {
				continue
			}
			for k := 0; k < 12; k++ {
				word := c.Str(letters, 9)
				all := p.Find(word, -1)
				c.Case(fmt.Sprintf("pattern %q word %q", expr, word), len(all) > 1, func() string {
					at := 0
					for _, m := range all {
						if len(m) < 2 || len(m)%2 != 0 {
							return fmt.Sprintf("odd match %v", m)
						}
						if m[0] < at || m[1] <= m[0] || m[1] > len(word) {
							return fmt.Sprintf("matches empty, out of range or out of order: %v", all)
						}
						at = m[1]
						for i := 2; i < len(m); i += 2 {
							if (m[i] != -1 || m[i+1] != -1) && (m[i] < 0 || m[i+1] < m[i] || m[i+1] > len(word)) {
								return fmt.Sprintf("submatch out of range: %v", m)
							}
						}
					}
					for n := 0; n <= len(all)+1; n++ {
						want := all
						if n < len(all) {
							want = all[:n]
						}
						got := p.Find(word, n)
						if len(got) != len(want) {
							return fmt.Sprintf("limit %d: got %v, all are %v", n, got, all)
						}
						if n > 0 {
							if d := cvDiff(fmt.Sprintf("limit %d", n), got, want); d != "" && len(want) > 0 {
								return d
							}
						}
					}
					return cvDiff("limit -2", p.Find(word, -2), all)
				})
			}
		}
	})
}
