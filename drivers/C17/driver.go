package hangulize

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
)

func TestCV(t *testing.T) {
	files, _ := filepath.Glob("specs/*.hsl")
	source := map[string]string{}
	var langs []string
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		l := strings.TrimSuffix(filepath.Base(f), ".hsl")
		langs = append(langs, l)
		source[l] = string(b)
	}
	sort.Strings(langs)
	bad := []string{"", "xxx", "ita.hsl", "../ita", "specs/ita", "ITA", "ita-1", "jpn-c", "it", "itaa", ".", "kat", "kat-3", "por-", "é", "\xff", "ita\x00", "/ita", "ita/"}
	loaded := map[string]*Spec{}
	load := func(l string) string {
		s, err := LoadSpec(l)
		src, known := source[l]
		if !known {
			if !errors.Is(err, ErrSpecNotFound) {
				return fmt.Sprintf("load %q: error %v", l, err)
			}
			if s != nil {
				return fmt.Sprintf("load %q: a spec", l)
			}
			return ""
		}
		if err != nil || s == nil {
			return fmt.Sprintf("load %q: %v %v", l, s, err)
		}
		if s.Source != src {
			return fmt.Sprintf("load %q: the spec of another source (%s)", l, s.Lang.ID)
		}
		if p := loaded[l]; p != nil && p != s {
			return fmt.Sprintf("load %q: not the spec loaded before", l)
		}
		loaded[l] = s
		return ""
	}
	cvRun(t, "every listed language loaded, then random histories of loads and unloads over known and unknown names; non-trivial: a history with a load of a loaded language after an unload of another one", func(c *cvCtx) {
		c.Case("ListLangs", true, func() string { return cvDiff("languages", ListLangs(), langs) })
		for _, l := range langs {
			c.Case("load "+l, true, func() string { return load(l) })
		}
		for c.More() {
			pool := []string{}
			for k := 1 + c.Rand.Intn(4); k > 0; k-- {
				pool = append(pool, langs[c.Rand.Intn(len(langs))])
			}
			// pairs of similar names
			pool = append(pool, c.Pick([]string{"jpn", "jpn-ck", "kat-1", "kat-2", "por", "por-br"}))
			if c.Rand.Intn(3) == 0 {
				for _, l := range langs {
					UnloadSpec(l)
					delete(loaded, l)
				}
			}
			hist := ""
			unloaded, again := "", false
			for k := 1 + c.Rand.Intn(12); k > 0; k-- {
				l := c.Pick(pool)
				if c.Rand.Intn(4) == 0 {
					l = c.Pick(bad)
				}
				un := c.Rand.Intn(3) == 0
				if un {
					hist += " unload " + l
				} else {
					hist += " load " + l
					again = again || unloaded != "" && unloaded != l && loaded[l] != nil
				}
				c.Case(fmt.Sprintf("history %q", hist), again, func() string {
					if !un {
						return load(l)
					}
					UnloadSpec(l)
					delete(loaded, l)
					unloaded = l
					return ""
				})
			}
		}
	})
}
