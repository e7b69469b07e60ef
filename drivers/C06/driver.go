package hangulize

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/hangulize/hangulize/pkg/hre"
)

func TestCV(t *testing.T) {
	type gen struct {
		re    string
		width int // -1: unlimited
	}
	leaves := []gen{{"a", 1}, {"ab", 2}, {"é한", 2}, {".", 1}, {"[ab]", 1}, {"[^é]", 1}, {"(?i:k)", 1}, {"\\b", 0}, {"^", 0}, {"$", 0}, {"(?s:.)", 1}, {"abc", 3}, {"\\.", 1}, {"\\pL", 1}, {"(?:)", 0}}
	cvRun(t, "random regular expressions of nested concatenations, alternatives, groups and repetitions, with their width computed alongside and matched against random texts, and specs with a rule that has them in a negative lookaround; non-trivial: a width that is neither 0, 1 nor unlimited", func(c *cvCtx) {
		var make func(depth int) gen
		rep := func(g gen, n int) gen {
			if g.width > 0 {
				g.width *= n
			}
			return g
		}
		make = func(depth int) gen {
			if depth == 0 || c.Rand.Intn(5) == 0 {
				return leaves[c.Rand.Intn(len(leaves))]
			}
			switch c.Rand.Intn(10) {
			case 0, 1, 2:
				a, b := make(depth-1), make(depth-1)
				g := gen{a.re + b.re, a.width + b.width}
				if strings.Contains(a.re, "|") || strings.Contains(b.re, "|") {
					g.re = "(?:" + a.re + ")(?:" + b.re + ")"
				}
				if a.width < 0 || b.width < 0 {
					g.width = -1
				}
				return g
			case 3, 4, 5:
				a, b := make(depth-1), make(depth-1)
				g := gen{a.re + "|" + b.re, a.width}
				if b.width > a.width {
					g.width = b.width
				}
				if a.width < 0 || b.width < 0 {
					g.width = -1
				}
				return g
			case 6:
				a := make(depth - 1)
				return gen{"(" + a.re + ")", a.width}
			case 7:
				a := make(depth - 1)
				return gen{"(?:" + a.re + ")?", a.width}
			case 8:
				a := make(depth - 1)
				return gen{"(?:" + a.re + ")" + c.Pick([]string{"*", "+", "{2,}", "*?", "{0,}"}), -1}
			}
			a := make(depth - 1)
			hi := c.Rand.Intn(4)
			lo := c.Rand.Intn(hi + 1)
			g := rep(a, hi)
			if hi == 0 {
				g.width = 0
			}
			g.re = fmt.Sprintf("(?:%s){%d,%d}", a.re, lo, hi)
			return g
		}
		hasStar := func(re *syntax.Regexp) bool {
			var f func(re *syntax.Regexp) bool
			f = func(re *syntax.Regexp) bool {
				switch {
				case re.Op == syntax.OpStar, re.Op == syntax.OpPlus, re.Op == syntax.OpRepeat && re.Max == -1:
					return true
				case re.Op == syntax.OpRepeat && re.Max == 0:
					return false
				}
				for _, s := range re.Sub {
					if f(s) {
						return true
					}
				}
				return false
			}
			return f(re)
		}
		letters := []string{"a", "b", "é", "한", "k", "K", "\u212a", ".", " ", "abc", "c"}
		for n := 0; c.More(); n++ {
			g := make(1 + c.Rand.Intn(4))
			re, err := syntax.Parse(g.re, syntax.Perl)
			if err != nil {
				continue
			}
			c.Case(fmt.Sprintf("width of %q", g.re), g.width > 1, func() string {
				got := hre.RegexpMaxWidth(re)
				if g.width == -1 && !hasStar(re) {
					// the parser dropped a repetition that can match the empty text only
					return ""
				}
				if d := cvDiff("width", got, g.width); d != "" {
					return d
				}
				if got < 0 {
					return ""
				}
				m := regexp.MustCompile(g.re)
				m.Longest()
				for k := 0; k < 3; k++ {
					word := c.Str(letters, 8)
					for _, s := range m.FindAllString(word, -1) {
						if utf8.RuneCountInString(s) > got {
							return fmt.Sprintf("width %d, but it matches %q", got, s)
						}
					}
				}
				return ""
			})
			if n%3 != 0 || strings.ContainsAny(g.re, "^${}\\<") {
				continue
			}
			// a spec that has it
			other := c.Pick([]string{"", "", "{~ab}", "{~c}", "{~[ab]?}", "{a}"})
			left := other + "x{~" + g.re + "}"
			if c.Rand.Intn(2) == 0 {
				left = "{~" + g.re + "}x" + other
			}
			sec := c.Pick([]string{"rewrite", "transcribe"})
			src := "lang:\n codes = aa, aaa\n script = Latn\n" + sec + ":\n \"y\" -> \"z\"\n \"" + left + "\" -> \"a\"\n \"q\" -> \"r\"\n"
			if _, err := hre.NewPattern(left, nil, nil); err != nil {
				continue
			}
			c.Case("spec "+fmt.Sprintf("%q", src), false, func() string {
				spec, err := ParseSpec(strings.NewReader(src))
				if (err != nil) != hasStar(re) {
					return fmt.Sprintf("unlimited: %v, error: %v", hasStar(re), err)
				}
				if (err != nil) == (spec != nil) {
					return "both or neither of a spec and an error"
				}
				return ""
			})
		}
	})
}
