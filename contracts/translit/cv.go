package translit

import (
	"github.com/hangulize/hangulize"
	"github.com/hangulize/hangulize/translit/cyrillic"
	"github.com/hangulize/hangulize/translit/furigana"
	"github.com/hangulize/hangulize/translit/pinyin"
)

func cvEq[T any](a, b T) bool { return true }

func cvPut[K comparable, V any](m map[K]V, k K, v V) map[K]V { return m }

func cvDel[K comparable, V any](m map[K]V, k K) map[K]V { return m }

// cvRegistry is the registry of the Hangulizer in use.
var cvRegistry map[string]hangulize.Translit

// specAdd is a registry with ts[i:n].
func specAdd(reg map[string]hangulize.Translit, ts []hangulize.Translit, i, n int) map[string]hangulize.Translit {
	if n <= 0 || n <= i {
		return reg
	}
	return cvPut(specAdd(reg, ts, i, n-1), ts[n-1].Scheme(), ts[n-1])
}

// specHas tells whether a scheme is among the ones of ts[i:n].
func specHas(ts []hangulize.Translit, i, n int, scheme string) bool {
	return n > 0 && i < n && (ts[n-1].Scheme() == scheme || specHas(ts, i, n-1, scheme))
}

// specDistinct tells whether ts[i:n] have distinct schemes that are not in a
// registry.
func specDistinct(reg map[string]hangulize.Translit, ts []hangulize.Translit, i, n int) bool {
	if n <= 0 || n <= i {
		return true
	}
	_, ok := reg[ts[n-1].Scheme()]
	return !ok && !specHas(ts, i, n-1, ts[n-1].Scheme()) && specDistinct(reg, ts, i, n-1)
}

//cv:requires ext:method:hangulize.Hangulizer.UseTranslit
func hUsePre(a0 hangulize.Translit) bool { return a0 != nil }

//cv:modifies ext:method:hangulize.Hangulizer.UseTranslit cvRegistry
//cv:ensures ext:method:hangulize.Hangulizer.UseTranslit adds to the registry
func hUsed(a0 hangulize.Translit, cvRegistry, old_cvRegistry map[string]hangulize.Translit, ret bool) bool {
	if _, ok := old_cvRegistry[a0.Scheme()]; ok {
		return !ret && cvEq(cvRegistry, old_cvRegistry)
	}
	return ret && cvEq(cvRegistry, cvPut(old_cvRegistry, a0.Scheme(), a0))
}

//cv:modifies ext:method:hangulize.Hangulizer.UnuseTranslit cvRegistry
//cv:ensures ext:method:hangulize.Hangulizer.UnuseTranslit removes from the registry
func hUnused(scheme string, cvRegistry, old_cvRegistry map[string]hangulize.Translit) bool {
	return cvEq(cvRegistry, cvDel(old_cvRegistry, scheme))
}

var _ = pinyin.T
var _ = furigana.T
var _ = cyrillic.Ts

//cv:panics Install
func installPanics(h []hangulize.Hangulizer) bool { return len(h) > 1 }

//cv:requires Install
func installPre(h []hangulize.Hangulizer, hangulize__defaultTranslitRegistry map[string]hangulize.Translit) bool {
	return hangulize__defaultTranslitRegistry != nil && specAll(specTranslits(), len(specTranslits())) && (len(h) != 1 || h[0] != nil)
}

// specAll tells whether the first n transliterators exist.
func specAll(ts []hangulize.Translit, n int) bool {
	return n <= 0 || n > len(ts) || ts[n-1] != nil && specAll(ts, n-1)
}

// specTranslits are the standard transliterators.
func specTranslits() []hangulize.Translit {
	return append([]hangulize.Translit{furigana.T, pinyin.T}, cyrillic.Ts...)
}

//cv:props Translits C16
//cv:ensures Translits lists the standard transliterators
func translitsList(ret []hangulize.Translit) bool { return cvEq(ret, specTranslits()) }

//cv:props Install C16
//cv:modifies Install cvRegistry hangulize__defaultTranslitRegistry
//cv:ensures Install adds all or nothing
func installed(h []hangulize.Hangulizer, cvRegistry, old_cvRegistry map[string]hangulize.Translit, ret bool) bool {
	if len(h) != 1 {
		return true
	}
	ts := specTranslits()
	if !ret {
		return cvEq(cvRegistry, old_cvRegistry) && !specDistinct(old_cvRegistry, ts, 0, len(ts))
	}
	return cvEq(cvRegistry, specAdd(old_cvRegistry, ts, 0, len(ts)))
}

//cv:ensures Install adds all or nothing by default
func installedDefault(h []hangulize.Hangulizer, hangulize__defaultTranslitRegistry, old_hangulize__defaultTranslitRegistry map[string]hangulize.Translit, ret bool) bool {
	if len(h) != 0 {
		return true
	}
	ts := specTranslits()
	if !ret {
		return cvEq(hangulize__defaultTranslitRegistry, old_hangulize__defaultTranslitRegistry) && !specDistinct(old_hangulize__defaultTranslitRegistry, ts, 0, len(ts))
	}
	return cvEq(hangulize__defaultTranslitRegistry, specAdd(old_hangulize__defaultTranslitRegistry, ts, 0, len(ts)))
}

//cv:lemma
func lemmaAll(ts []hangulize.Translit, n, k int) {
	if k < n-1 {
		lemmaAll(ts, n-1, k)
	}
}

//cv:requires lemmaAll
func lemmaAllPre(ts []hangulize.Translit, n, k int) bool {
	return specAll(ts, n) && 0 <= k && k < n && n <= len(ts)
}

//cv:ensures lemmaAll
func lemmaAllIs(ts []hangulize.Translit, k int) bool { return ts[k] != nil }

//cv:decreases lemmaAll
func lemmaAllDec(n int) int { return n }

// lemmaHas tells what a registry with ts[i:n] has.
//
//cv:lemma
func lemmaHas(reg map[string]hangulize.Translit, ts []hangulize.Translit, i, n int, scheme string) {
	if i < n {
		lemmaHas(reg, ts, i, n-1, scheme)
	}
}

//cv:requires lemmaHas
func lemmaHasPre(ts []hangulize.Translit, i, n int) bool { return 0 <= i && n <= len(ts) }

//cv:ensures lemmaHas
func lemmaHasIs(reg map[string]hangulize.Translit, ts []hangulize.Translit, i, n int, scheme string) bool {
	_, had := reg[scheme]
	_, has := specAdd(reg, ts, i, n)[scheme]
	return has == (had || specHas(ts, i, n, scheme))
}

//cv:decreases lemmaHas
func lemmaHasDec(n int) int { return n }

// lemmaLeft tells about leaving out the first one.
//
//cv:lemma
func lemmaLeft(reg map[string]hangulize.Translit, ts []hangulize.Translit, i, n int, scheme string) {
	lemmaAll(ts, len(ts), i)
	lemmaAll(ts, len(ts), n-1)
	if i < n-1 {
		lemmaLeft(reg, ts, i, n-1, scheme)
		lemmaLeft(reg, ts, i, n-1, ts[n-1].Scheme())
	}
}

//cv:requires lemmaLeft
func lemmaLeftPre(ts []hangulize.Translit, i, n int) bool {
	return 0 <= i && i < n && n <= len(ts) && specAll(ts, len(ts))
}

//cv:ensures lemmaLeft the first scheme
func lemmaLeftHas(ts []hangulize.Translit, i, n int, scheme string) bool {
	return specHas(ts, i, n, scheme) == (scheme == ts[i].Scheme() || specHas(ts, i+1, n, scheme))
}

//cv:ensures lemmaLeft the others stay distinct
func lemmaLeftDistinct(reg map[string]hangulize.Translit, ts []hangulize.Translit, i, n int) bool {
	return !specDistinct(reg, ts, i, n) || specDistinct(reg, ts, i+1, n)
}

//cv:ensures lemmaLeft removing the first one
func lemmaLeftRemove(reg map[string]hangulize.Translit, ts []hangulize.Translit, i, n int) bool {
	return !specDistinct(reg, ts, i, n) || cvEq(cvDel(specAdd(reg, ts, i, n), ts[i].Scheme()), specAdd(reg, ts, i+1, n))
}

//cv:decreases lemmaLeft
func lemmaLeftDec(n int) int { return n }

// lemmaDistinct tells that a prefix is distinct.
//
//cv:lemma
func lemmaDistinct(reg map[string]hangulize.Translit, ts []hangulize.Translit, n, m int) {
	if n < m {
		lemmaDistinct(reg, ts, n, m-1)
	}
}

//cv:requires lemmaDistinct
func lemmaDistinctPre(reg map[string]hangulize.Translit, ts []hangulize.Translit, n, m int) bool {
	return 0 <= n && n <= m && m <= len(ts) && specDistinct(reg, ts, 0, m)
}

//cv:ensures lemmaDistinct
func lemmaDistinctIs(reg map[string]hangulize.Translit, ts []hangulize.Translit, n int) bool {
	return specDistinct(reg, ts, 0, n)
}

//cv:decreases lemmaDistinct
func lemmaDistinctDec(m int) int { return m }

//cv:invariant Install
func installing(h []hangulize.Hangulizer, cvRegistry, old_cvRegistry map[string]hangulize.Translit, ts, done []hangulize.Translit) bool {
	n := len(done)
	if n < len(ts) {
		lemmaAll(ts, len(ts), n)
		lemmaHas(old_cvRegistry, ts, 0, n, ts[n].Scheme())
		if specDistinct(old_cvRegistry, ts, 0, len(ts)) {
			lemmaDistinct(old_cvRegistry, ts, n+1, len(ts))
		}
	}
	return len(h) != 1 || specDistinct(old_cvRegistry, ts, 0, len(done)) && specAll(ts, len(ts)) &&
		cvEq(cvRegistry, specAdd(old_cvRegistry, ts, 0, len(done)))
}

//cv:invariant Install
func removing(h []hangulize.Hangulizer, cvRegistry, old_cvRegistry map[string]hangulize.Translit, ts []hangulize.Translit, i, j int) bool {
	if 0 <= j && j < i && i <= len(ts) {
		lemmaAll(ts, len(ts), j)
		lemmaLeft(old_cvRegistry, ts, j, i, "")
	}
	return 0 <= j && j <= i && (len(h) != 1 || specDistinct(old_cvRegistry, ts, j, i) && specAll(ts, len(ts)) &&
		cvEq(cvRegistry, specAdd(old_cvRegistry, ts, j, i)) && !specDistinct(old_cvRegistry, ts, 0, len(ts)))
}

//cv:invariant Install
func installingDefault(h []hangulize.Hangulizer, hangulize__defaultTranslitRegistry, old_hangulize__defaultTranslitRegistry map[string]hangulize.Translit, ts, done []hangulize.Translit) bool {
	n := len(done)
	if n < len(ts) {
		lemmaAll(ts, len(ts), n)
		lemmaHas(old_hangulize__defaultTranslitRegistry, ts, 0, n, ts[n].Scheme())
		if specDistinct(old_hangulize__defaultTranslitRegistry, ts, 0, len(ts)) {
			lemmaDistinct(old_hangulize__defaultTranslitRegistry, ts, n+1, len(ts))
		}
	}
	return len(h) != 0 || specDistinct(old_hangulize__defaultTranslitRegistry, ts, 0, len(done)) && specAll(ts, len(ts)) &&
		cvEq(hangulize__defaultTranslitRegistry, specAdd(old_hangulize__defaultTranslitRegistry, ts, 0, len(done)))
}

//cv:invariant Install
func removingDefault(h []hangulize.Hangulizer, hangulize__defaultTranslitRegistry, old_hangulize__defaultTranslitRegistry map[string]hangulize.Translit, ts []hangulize.Translit, i, j int) bool {
	if 0 <= j && j < i && i <= len(ts) {
		lemmaAll(ts, len(ts), j)
		lemmaLeft(old_hangulize__defaultTranslitRegistry, ts, j, i, "")
	}
	return 0 <= j && j <= i && (len(h) != 0 || specDistinct(old_hangulize__defaultTranslitRegistry, ts, j, i) && specAll(ts, len(ts)) &&
		cvEq(hangulize__defaultTranslitRegistry, specAdd(old_hangulize__defaultTranslitRegistry, ts, j, i)) && !specDistinct(old_hangulize__defaultTranslitRegistry, ts, 0, len(ts)))
}
