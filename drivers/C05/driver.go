package hre

import (
	"fmt"
	"regexp"
	"strings"
	"testing"
)

func TestCV(t *testing.T) {
	macros := map[string]string{"@": "<vowels>", "%": "z<one>"}
	vars := map[string][]string{"vowels": {"a", "e"}, "b": {"b", "c", "é"}, "one": {"한"}, "dup": {"x", "y", "x"}, "empty": {}, "up": {"A", "E", "É", "글"}, "long": {"bc", "b"}, "part": {"", "X", ""}, "meta": {".", "a+", "("}}
	type item struct{ hre, re, v string }
	left := []item{{"a", "a", ""}, {"é", "é", ""}, {"한", "한", ""}, {"[xy]", "[xy]", ""}, {"(?:a|b)", "(?:a|b)", ""}, {"b+", "b+", ""}, {".", ".", ""},
		{"@", "(a|e)", "vowels"}, {"<b>", "(b|c|é)", "b"}, {"<one>", "(한)", "one"}, {"<dup>", "(x|y|x)", "dup"}, {"<long>", "(bc|b)", "long"}, {"<vowels>", "(a|e)", "vowels"}, {"<b>?", "(b|c|é)?", "b"}, {"<up>", "(A|E|É|글)", "up"}, {"<meta>", `(\.|a\+|\()`, "meta"}}
	right := []item{{"a", "a", ""}, {"é", "é", ""}, {"{}", "{}", ""}, {"-ㄱ", "-ㄱ", ""}, {"", "", ""}, {"<up>", "", "up"}, {"<b>", "", "b"}, {"@", "", "vowels"}, {"<one>", "", "one"}, {"<dup>", "", "dup"}, {"<long>", "", "long"}, {"<up>", "", "up"}, {"<meta>", "", "meta"}, {"<part>", "", "part"}, {"%", "z", "one"}}
	bad := []item{{"<empty>", "", "empty"}, {"<unknown>", "", "unknown"}}
	letters := []string{"a", "b", "e", "é", "한", "x", "y", "c", "A", "글", " ", "bc", "\xff", "aé", ".", "+", "("}
	looks := []item{{"a", "a", ""}, {"b|é", "b|é", ""}, {"<b>", "(?:b|c|é)", ""}, {"(x)y", "xy", ""}, {"@<one>", "(?:a|e)한", ""}}
	cvRun(t, "patterns of one to four items (letters, classes, variables) with negative lookarounds, right sides of up to four items, random words; non-trivial: a variable is mapped", func(c *cvCtx) {
		for c.More() {
			lhs, re := "", ""
			var used []string
			for k := c.Rand.Intn(4); k >= 0; k-- {
				x := left[c.Rand.Intn(len(left))]
				lhs, re = lhs+x.hre, re+x.re
				if x.v != "" {
					used = append(used, x.v)
				}
			}
			core := regexp.MustCompile(re)
			if core.MatchString("") {
				continue
			}
			var ahead, behind *regexp.Regexp
			if c.Rand.Intn(3) == 0 {
				x := looks[c.Rand.Intn(len(looks))]
				lhs += "{~" + x.hre + "}"
				ahead = regexp.MustCompile("^(?:" + x.re + ")")
			}
			if c.Rand.Intn(3) == 0 {
				x := looks[c.Rand.Intn(len(looks))]
				lhs = "{~" + x.hre + "}" + lhs
				behind = regexp.MustCompile("(?:" + x.re + ")$")
			}
			rhs := ""
			var parts []item
			for k := c.Rand.Intn(5); k > 0; k-- {
				x := right[c.Rand.Intn(len(right))]
				if c.Rand.Intn(12) == 0 {
					x = bad[c.Rand.Intn(len(bad))]
				}
				rhs += x.hre
				parts = append(parts, x)
			}
			// what a match becomes
			mapped := func(vals []string) (string, bool) {
				to, k := "", 0
				for _, x := range parts {
					if x.v == "" {
						to += x.re
						continue
					}
					if x.hre == "%" {
						to += "z"
					}
					if k >= len(used) || len(vars[x.v]) == 0 {
						return "", false
					}
					at := -1
					for i, v := range vars[used[k]] {
						if v == vals[k] {
							at = i
							break
						}
					}
					if at < 0 {
						return "", false
					}
					to += vars[x.v][at%len(vars[x.v])]
					k++
				}
				return to, true
			}
			p, err := NewPattern(lhs, macros, vars)
			if err != nil {
				c.Case(fmt.Sprintf("pattern %q", lhs), false, func() string { return err.Error() })
			}
			rp := NewRPattern(rhs, macros, vars)
			for i := 0; i < 10; i++ {
				word := c.Str(letters, 8)
				n := c.Rand.Intn(4) - 1
				want, at, found, mappedOne := "", 0, 0, false
				for off := 0; off < len(word) && found != n; {
					m := core.FindStringSubmatchIndex(word[off:])
					if m == nil {
						break
					}
					start, stop := off+m[0], off+m[1]
					var vals []string
					for j := 2; j < len(m); j += 2 {
						if m[j] < 0 {
							vals = append(vals, "")
						} else {
							vals = append(vals, word[off+m[j]:off+m[j+1]])
						}
					}
					off = stop
					if ahead != nil && ahead.MatchString(word[stop:]) || behind != nil && behind.MatchString(word[:start]) {
						continue
					}
					found++
					to, ok := mapped(vals)
					if !ok {
						to = word[start:stop]
					} else if strings.Contains(rhs, "<") {
						mappedOne = true
					}
					want += word[at:start] + to
					at = stop
				}
				want += word[at:]
				c.Case(fmt.Sprintf("pattern %q -> %q word %q limit %d", lhs, rhs, word, n), mappedOne, func() string {
					if d := cvDiff("Replace", p.Replace(word, rp, n), want); d != "" {
						return d
					}
					for _, m := range p.Find(word, n) {
						var vals []string
						for j := 2; j < len(m); j += 2 {
							if m[j] < 0 {
								vals = append(vals, "")
							} else {
								vals = append(vals, word[m[j]:m[j+1]])
							}
						}
						to, ok := mapped(vals)
						got, err := rp.Interpolate(p, word, m)
						if (err == nil) != ok {
							return fmt.Sprintf("Interpolate of %q: error %v, defined %v", word[m[0]:m[1]], err, ok)
						}
						if got != to {
							return fmt.Sprintf("Interpolate of %q: got %q, want %q", word[m[0]:m[1]], got, to)
						}
					}
					return ""
				})
			}
		}
	})
}
