package hre

import (
	"fmt"
	"regexp"
	"strings"
	"testing"
)

func TestCV(t *testing.T) {
	macros := map[string]string{"@": "<vowels>", "%": "[xy]"}
	vars := map[string][]string{"vowels": {"a", "e"}, "b": {"b", "bb", "é"}, "one": {"한"}, "dot": {".", "a."}}
	// each item and what it means as a plain regular expression
	plain := map[string]string{"@": "(?:a|e)", "%": "[xy]", "<b>": "(?:b|bb|é)", "<one>": "(?:한)", "<dot>": `(?:\.|a\.)`}
	for _, s := range []string{"a", "b", "é", "한", ".", "[ab]", "[^b]", "(a|bc)", "(?:é|b)", "(a)?", "(a(b)?)", "x", `\.`, "[(]", `\(`, "[é한]?", "e?", "[^)]", `[\](]`, "((é)|(한))", "(ab|한é)?"} {
		plain[s] = s
	}
	items := make([]string, 0, len(plain))
	for _, s := range []string{"@", "%", "<b>", "<one>", "<dot>", "a", "b", "é", "한", ".", "[ab]", "[^b]", "(a|bc)", "(?:é|b)", "(a)?", "(a(b)?)", "x", `\.`, "[(]", `\(`, "[é한]?", "e?", "[^)]", `[\](]`, "((é)|(한))", "(ab|한é)?"} {
		items = append(items, s)
	}
	cores := []string{"a", "b", "é", "한", ".", "[ab]", "(a|bc)", "<b>", "<one>a", "@b", "ax", "(?:é|b)a", "a+", "<b>@", "(a)(b)?", `\(`}
	letters := []string{"a", "b", "e", "é", "한", "x", "y", ".", "(", ")", "]", "c", "ab", "bb", "一", "\U0001f600"}
	look := func(c *cvCtx) (string, string) {
		hre, re := "", ""
		for k := c.Rand.Intn(3); k >= 0; k-- {
			if hre != "" && c.Rand.Intn(4) == 0 {
				hre, re = hre+"|", re+"|"
			}
			s := c.Pick(items)
			hre, re = hre+s, re+plain[s]
		}
		return hre, re
	}
	cvRun(t, "patterns with a negative lookahead, lookbehind or both around a core, of which candidates are compared with the matches of the core alone filtered by plain regular expressions on the whole rest; non-trivial: a candidate is excluded and another one is reported", func(c *cvCtx) {
		for c.More() {
			core := c.Pick(cores)
			expr := core
			var ahead, behind *regexp.Regexp
			kind := 1 + c.Rand.Intn(3)
			if kind&1 != 0 {
				h, re := look(c)
				expr += "{~" + h + "}"
				ahead = regexp.MustCompile("^(?:" + re + ")")
			}
			if kind&2 != 0 {
				h, re := look(c)
				expr = "{~" + h + "}" + expr
				behind = regexp.MustCompile("(?:" + re + ")$")
			}
			for k := 0; k < 12; k++ {
				word := c.Str(letters, 9)
				if c.Rand.Intn(8) == 0 {
					word = strings.Repeat("가", c.Rand.Intn(5)) + word
				}
				var want [][]int
				plainP, err := NewPattern(core, macros, vars)
				n := 0
				if err == nil {
					for _, m := range plainP.Find(word, -1) {
						n++
						if ahead != nil && ahead.MatchString(word[m[1]:]) || behind != nil && behind.MatchString(word[:m[0]]) {
							continue
						}
						want = append(want, m[:2])
					}
				}
				c.Case(fmt.Sprintf("pattern %q word %q", expr, word), len(want) > 0 && n > len(want), func() string {
					if err != nil {
						return fmt.Sprintf("core %q: %v", core, err)
					}
					p, err := NewPattern(expr, macros, vars)
					if err != nil {
						return "not compiled: " + err.Error()
					}
					var got [][]int
					for _, m := range p.Find(word, -1) {
						got = append(got, m[:2])
					}
					return cvDiff("matches", got, want)
				})
			}
		}
	})
}
