package translit

import (
	"fmt"
	"strings"
	"testing"

	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit/cyrillic"
	"github.com/hangulize/hangulize/translit/furigana"
	"github.com/hangulize/hangulize/translit/pinyin"
)

type cvFake struct {
	scheme string
	id     int
}

func (f *cvFake) Scheme() string                          { return f.scheme }
func (f *cvFake) Transliterate(w string) (string, error) { return w, nil }

type cvReg struct {
	h     hangulize.Hangulizer // nil for the default registry
	model map[string]hangulize.Translit
}

func (r *cvReg) list() map[string]hangulize.Translit {
	if r.h == nil {
		return hangulize.Translits()
	}
	return r.h.Translits()
}

func (r *cvReg) use(t hangulize.Translit) bool {
	if r.h == nil {
		return hangulize.UseTranslit(t)
	}
	return r.h.UseTranslit(t)
}

func (r *cvReg) unuse(s string) bool {
	if r.h == nil {
		return hangulize.UnuseTranslit(s)
	}
	return r.h.UnuseTranslit(s)
}

func (r *cvReg) install() bool {
	if r.h == nil {
		return Install()
	}
	return Install(r.h)
}

func (r *cvReg) check() string {
	l := r.list()
	if len(l) != len(r.model) {
		return fmt.Sprintf("the registry has %d, want %d", len(l), len(r.model))
	}
	for s, t := range r.model {
		if l[s] != t {
			return fmt.Sprintf("the registry has %v for %q, want %v", l[s], s, t)
		}
	}
	// a listing is a copy
	l["a"] = &cvFake{"a", -1}
	for s := range r.model {
		delete(l, s)
		break
	}
	l = r.list()
	if len(l) != len(r.model) {
		return "writing to a listing changes the registry"
	}
	for s, t := range r.model {
		if l[s] != t {
			return "writing to a listing changes the registry"
		}
	}
	return ""
}

func TestCV(t *testing.T) {
	std := append([]hangulize.Translit{furigana.T, pinyin.T}, cyrillic.Ts...)
	schemes := []string{"a", "", "x y"}
	for _, s := range std {
		schemes = append(schemes, s.Scheme())
	}
	names := []string{"use", "unuse", "install"}
	cvRun(t, "random histories of use, unuse, install and listing on the default registry and those of two transcribers, preceded by every short history of one; non-trivial: a refused operation", func(c *cvCtx) {
		newRegs := func() []*cvReg {
			for s := range hangulize.Translits() {
				hangulize.UnuseTranslit(s)
			}
			return []*cvReg{
				{nil, map[string]hangulize.Translit{}},
				{hangulize.New(&hangulize.Spec{}), map[string]hangulize.Translit{}},
				{hangulize.New(&hangulize.Spec{}), map[string]hangulize.Translit{}},
			}
		}
		type op struct{ reg, kind, scheme int }
		run := func(ops []op) {
			var log []string
			refused := false
			for _, o := range ops {
				log = append(log, fmt.Sprintf("%s(%d,%q)", names[o.kind], o.reg, schemes[o.scheme]))
			}
			regs := newRegs()
			for i, o := range ops {
				r := regs[o.reg]
				if _, ok := r.model[schemes[o.scheme]]; ok == (o.kind == 0) && i > 0 {
					refused = true
				}
			}
			c.Case(strings.Join(log, " "), refused, func() string {
				for _, r := range regs {
					if m := r.check(); m != "" {
						return "at the start: " + m
					}
				}
				for i, o := range ops {
					r := regs[o.reg]
					s := schemes[o.scheme]
					got, want := false, false
					switch o.kind {
					case 0:
						f := &cvFake{s, i}
						if _, ok := r.model[s]; !ok {
							r.model[s] = f
							want = true
						}
						got = r.use(f)
					case 1:
						_, want = r.model[s]
						delete(r.model, s)
						got = r.unuse(s)
					case 2:
						want = true
						for _, t := range std {
							if _, ok := r.model[t.Scheme()]; ok {
								want = false
							}
						}
						if want {
							for _, t := range std {
								r.model[t.Scheme()] = t
							}
						}
						got = r.install()
					}
					if got != want {
						return fmt.Sprintf("after %s: got %v, want %v", log[i], got, want)
					}
					for k, r := range regs {
						if m := r.check(); m != "" {
							return fmt.Sprintf("after %s, registry %d: %s", log[i], k, m)
						}
					}
				}
				return ""
			})
		}
		for reg := 0; reg < 2; reg++ {
			run(nil)
			for a := range schemes {
				for b := range schemes {
					for k := 0; k < 9; k++ {
						run([]op{{reg, k % 3, a}, {reg, k / 3, b}, {reg, 2, 0}, {reg, 1, b}, {reg, 2, 0}})
					}
				}
			}
		}
		for c.More() {
			var ops []op
			for n := c.Rand.Intn(14); n >= 0; n-- {
				k := 0
				switch {
				case c.Rand.Intn(8) == 0:
					k = 2
				case c.Rand.Intn(3) != 0:
					k = 1
				}
				ops = append(ops, op{c.Rand.Intn(3), k, c.Rand.Intn(len(schemes))})
			}
			run(ops)
		}
	})
}
