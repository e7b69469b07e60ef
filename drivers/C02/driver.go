package subword

import (
	"fmt"
	"testing"
)

func TestCV(t *testing.T) {
	pieces := []string{"a", "b", "é", "한", "\xff", " ", "ab", "\x00"}
	cvRun(t, "random words, chains of ordered replacements, and lists of subwords; non-trivial: a word of at least two bytes with a replacement, or two subwords", func(c *cvCtx) {
		same := func(what string, got, want any) string {
			g, w := fmt.Sprintf("%q", got), fmt.Sprintf("%q", want)
			if g != w {
				return what + ": got " + g + ", want " + w
			}
			return ""
		}
		for c.More() {
			// replacing
			word := c.Str(pieces, 6)
			prev, next := c.Rand.Intn(4), c.Rand.Intn(4)
			var batches [][]Replacement
			w := word
			for k := c.Rand.Intn(4); k >= 0; k-- {
				var rs []Replacement
				at := 0
				for j := c.Rand.Intn(4); j > 0; j-- {
					if at > len(w) {
						break
					}
					start := at + c.Rand.Intn(len(w)-at+1)
					stop := start + c.Rand.Intn(len(w)-start+1)
					rs = append(rs, NewReplacement(start, stop, c.Str(pieces, 2)))
					at = stop
				}
				batches = append(batches, rs)
				w = specText(w, rs, 0)
			}
			how := c.Rand.Intn(4)
			c.Case(fmt.Sprintf("replace %q levels %d %d by %q (%d)", word, prev, next, batches, how), len(word) > 1 && len(batches[0]) > 0, func() string {
				r := NewReplacer(word, prev, next)
				if r2 := NewReplacer(word, prev, next); how == 3 {
					if m := same("String of a new one", r2.String(), word); m != "" {
						return m
					}
				}
				text, levels := word, specRep(len(word), prev)
				for i, rs := range batches {
					given := append([]Replacement{}, rs...)
					if how == 0 {
						for _, x := range rs {
							r.Replace(x.Start, x.Stop, x.Word)
						}
					} else {
						r.ReplaceBy(rs...)
					}
					if m := same("replacements of the caller", rs, given); m != "" {
						return m
					}
					levels = specLevels(levels, rs, next, 0)
					text = specText(text, rs, 0)
					if how == 1 && i%2 == 0 || i < len(batches)-1 {
						if m := same("String", r.String(), text); m != "" {
							return m
						}
						if m := same("String again", r.String(), text); m != "" {
							return m
						}
					}
				}
				if how == 2 {
					if m := same("String", r.String(), text); m != "" {
						return m
					}
				}
				got := r.Subwords()
				if m := same("Subwords", got, specSplitAll(text, levels)); m != "" {
					return m
				}
				if m := same("Subwords again", r.Subwords(), got); m != "" {
					return m
				}
				return same("String after Subwords", r.String(), text)
			})
			// merging
			var sws []Subword
			for k := c.Rand.Intn(7); k > 0; k-- {
				sws = append(sws, New(c.Str(pieces, 2), c.Rand.Intn(3)))
			}
			cut := c.Rand.Intn(len(sws) + 1)
			mode := c.Rand.Intn(3)
			c.Case(fmt.Sprintf("merge %+q cut %d mode %d", sws, cut, mode), len(sws) > 1, func() string {
				all := append([]Subword{}, sws...)
				b := NewBuilder(append([]Subword{}, sws[:cut]...))
				b.Write(sws[cut:]...)
				if mode == 1 {
					b.Reset()
					if m := same("after Reset", b.String(), ""); m != "" {
						return m
					}
					if m := same("after Reset", b.Subwords(), []Subword{}); m != "" {
						return m
					}
					b.Write(sws...)
				}
				if m := same("Builder.String", b.String(), specConcat(all)); m != "" {
					return m
				}
				if m := same("Builder.Subwords", b.Subwords(), specMergeAll(all)); m != "" {
					return m
				}
				if m := same("Builder.Subwords again", b.Subwords(), specMergeAll(all)); m != "" {
					return m
				}
				return same("subwords of the caller", sws, all)
			})
		}
	})
}
