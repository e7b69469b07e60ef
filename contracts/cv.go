package hangulize

import (
	"errors"
	"io/fs"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/hangulize/hangulize/internal/subword"
	"github.com/hangulize/hangulize/pkg/hre"
	"github.com/hangulize/hangulize/pkg/hsl"
)

// ---- Localization ----

//cv:props (procedure).localize C13
//cv:requires (procedure).localize
func localizePre(p procedure) bool {
	return p.spec != nil && p.spec.script != nil && (p.tracer == nil || p.tracer.fn != nil)
}

//cv:modifies (procedure).localize p.tracer.prevWord cvWords
//cv:ensures (procedure).localize converts punctuation only
func localized(p procedure, old_word, ret string) bool {
	return ret == specLocalize(p.spec.script, []rune(old_word), len([]rune(old_word)))
}

// specPuncts tells which characters are punctuation, by position.
//
//cv:fuel 0
func specPuncts(chars []rune, n int) map[int]bool {
	if n <= 0 {
		return map[int]bool{}
	}
	return cvPut(specPuncts(chars, n-1), n-1, unicode.IsPunct(chars[n-1]))
}

// specSpaces tells which characters are spaces, by position.
//
//cv:fuel 0
func specSpaces(chars []rune, n int) map[int]bool {
	if n <= 0 {
		return map[int]bool{}
	}
	return cvPut(specSpaces(chars, n-1), n-1, unicode.IsSpace(chars[n-1]))
}

//cv:invariant (procedure).localize
func classifying(isPunct, isSpace map[int]bool, chars, done []rune) bool {
	return cvEq(isPunct, specPuncts(chars, len(done))) && cvEq(isSpace, specSpaces(chars, len(done)))
}

//cv:lemma
func lemmaPuncts(chars []rune, n, k int) {
	if n > 0 {
		lemmaPuncts(chars, n-1, k)
	}
}

//cv:requires lemmaPuncts
func lemmaPunctsPre(chars []rune, n int) bool { return n <= len(chars) }

//cv:ensures lemmaPuncts the classification by position
func lemmaPunctsIs(chars []rune, n, k int) bool {
	if 0 <= k && k < n {
		return specPuncts(chars, n)[k] == unicode.IsPunct(chars[k]) && specSpaces(chars, n)[k] == unicode.IsSpace(chars[k])
	}
	return !specPuncts(chars, n)[k] && !specSpaces(chars, n)[k]
}

//cv:decreases lemmaPuncts
func lemmaPunctsDec(n int) int { return n }

//cv:invariant (procedure).localize
func localizing(p procedure, isPunct, isSpace map[int]bool, chars, done, rest []rune, buf string) bool {
	n := len(done)
	lemmaPuncts(chars, len(chars), n-1)
	lemmaPuncts(chars, len(chars), n)
	lemmaPuncts(chars, len(chars), n+1)
	return buf == specLocalize(p.spec.script, chars, n)
}

// ---- Tracing ----

//cv:callback func(hangulize.Trace)
func cvReport(t Trace) { cvWords = append(cvWords, t.Word) }

// cvWords are the words reported so far.
var cvWords []string

//cv:helper (*tracer).trace
//cv:nilable (*tracer).trace r
//cv:requires (*tracer).trace
func tracePre(r *tracer) bool { return r == nil || r.fn != nil }

//cv:modifies (*tracer).trace r.prevWord cvWords
//cv:ensures (*tracer).trace reports a changed word
func traced(r *tracer, old_r tracer, t Trace, cvWords, old_cvWords []string) bool {
	if r == nil || old_r.prevWord == t.Word {
		return cvEq(cvWords, old_cvWords)
	}
	return cvEq(cvWords, append(append([]string{}, old_cvWords...), t.Word))
}

//cv:ensures (*tracer).trace remembers the word
func tracedWord(r *tracer, t Trace) bool { return r == nil || r.prevWord == t.Word }

func cvEq[T any](a, b T) bool { return true }

func cvPut[K comparable, V any](m map[K]V, k K, v V) map[K]V { return m }

func cvDel[K comparable, V any](m map[K]V, k K) map[K]V { return m }

func cvMapOf[K comparable, V any, E any](like map[K]V, es []E) map[K]V { return like }

// ---- The registry of transliterators ----

//cv:requires (translitRegistry).Add
func addPre(r translitRegistry, t Translit) bool { return r != nil && t != nil }

//cv:props (translitRegistry).Add C16
//cv:modifies (translitRegistry).Add r
//cv:ensures (translitRegistry).Add keeps the first of a scheme
func added(r, old_r translitRegistry, t Translit) bool {
	if _, ok := old_r[t.Scheme()]; ok {
		return cvEq(r, old_r)
	}
	return cvEq(r, cvPut(old_r, t.Scheme(), t))
}

//cv:ensures (translitRegistry).Add reports whether the scheme was free
func addedFree(old_r translitRegistry, t Translit, ret bool) bool {
	_, ok := old_r[t.Scheme()]
	return ret == !ok
}

//cv:props (translitRegistry).Remove C16
//cv:modifies (translitRegistry).Remove r
//cv:ensures (translitRegistry).Remove removes only the scheme
func removed(r, old_r translitRegistry, scheme string) bool {
	return cvEq(r, cvDel(old_r, scheme))
}

//cv:ensures (translitRegistry).Remove reports whether the scheme was there
func removedHad(old_r translitRegistry, scheme string, ret bool) bool {
	_, ok := old_r[scheme]
	return ret == ok
}

//cv:entry map[string]hangulize.Translit
type cvTranslit struct {
	scheme string
	t      Translit
}

//cv:props (translitRegistry).Detach C16
//cv:ensures (translitRegistry).Detach copies the registry
func detached(r translitRegistry, ret map[string]Translit) bool {
	return cvEq(ret, r)
}

//cv:fresh (translitRegistry).Detach
//cv:invariant (translitRegistry).Detach
func detaching(copied map[string]Translit, done []cvTranslit) bool {
	return cvEq(copied, cvMapOf(copied, done))
}

//cv:props UseTranslit C16
//cv:modifies UseTranslit defaultTranslitRegistry
//cv:requires UseTranslit
func useTranslitPre(t Translit) bool { return t != nil && defaultTranslitRegistry != nil }

//cv:ensures UseTranslit adds to the default registry
func usedTranslit(defaultTranslitRegistry, old_defaultTranslitRegistry translitRegistry, t Translit) bool {
	return added(defaultTranslitRegistry, old_defaultTranslitRegistry, t)
}

//cv:ensures UseTranslit reports whether the scheme was free
func usedTranslitFree(old_defaultTranslitRegistry translitRegistry, t Translit, ret bool) bool {
	return addedFree(old_defaultTranslitRegistry, t, ret)
}

//cv:props UnuseTranslit C16
//cv:modifies UnuseTranslit defaultTranslitRegistry
//cv:ensures UnuseTranslit removes from the default registry
func unusedTranslit(defaultTranslitRegistry, old_defaultTranslitRegistry translitRegistry, scheme string) bool {
	return removed(defaultTranslitRegistry, old_defaultTranslitRegistry, scheme)
}

//cv:ensures UnuseTranslit reports whether the scheme was there
func unusedTranslitHad(old_defaultTranslitRegistry translitRegistry, scheme string, ret bool) bool {
	return removedHad(old_defaultTranslitRegistry, scheme, ret)
}

//cv:props Translits C16
//cv:fresh Translits
//cv:ensures Translits copies the default registry
func listedTranslits(ret map[string]Translit) bool { return cvEq(ret, defaultTranslitRegistry) }

//cv:requires (*hangulizer).UseTranslit
func hUsePre(h *hangulizer, t Translit) bool { return h.translitRegistry != nil && t != nil }

//cv:props (*hangulizer).UseTranslit C16
//cv:modifies (*hangulizer).UseTranslit h.translitRegistry
//cv:ensures (*hangulizer).UseTranslit adds to the registry
func hUsed(h *hangulizer, old_h hangulizer, t Translit) bool {
	return added(h.translitRegistry, old_h.translitRegistry, t)
}

//cv:ensures (*hangulizer).UseTranslit reports whether the scheme was free
func hUsedFree(old_h hangulizer, t Translit, ret bool) bool {
	return addedFree(old_h.translitRegistry, t, ret)
}

//cv:props (*hangulizer).UnuseTranslit C16
//cv:modifies (*hangulizer).UnuseTranslit h.translitRegistry
//cv:ensures (*hangulizer).UnuseTranslit removes from the registry
func hUnused(h *hangulizer, old_h hangulizer, scheme string) bool {
	return removed(h.translitRegistry, old_h.translitRegistry, scheme)
}

//cv:ensures (*hangulizer).UnuseTranslit reports whether the scheme was there
func hUnusedHad(old_h hangulizer, scheme string, ret bool) bool {
	return removedHad(old_h.translitRegistry, scheme, ret)
}

//cv:props (*hangulizer).Translits C16
//cv:fresh (*hangulizer).Translits
//cv:ensures (*hangulizer).Translits copies the registry
func hListed(h *hangulizer, ret map[string]Translit) bool { return cvEq(ret, h.translitRegistry) }

//cv:props New C16
//cv:fresh New
//cv:ensures New starts with an empty registry
func newEmpty(spec *Spec, ret Hangulizer) bool {
	h, ok := ret.(*hangulizer)
	return ok && h.spec == spec && h.translitRegistry != nil && len(h.translitRegistry) == 0 && h.traceFunc == nil
}

// ---- Normalization ----

//cv:pure ext:(*strings.Replacer).Replace

//cv:props (procedure).normalize C11
//cv:requires (procedure).normalize
func normalizePre(p procedure) bool {
	return p.spec != nil && p.spec.script != nil && p.spec.normReplacer != nil && (p.tracer == nil || p.tracer.fn != nil)
}

//cv:modifies (procedure).normalize p.tracer.prevWord cvWords
//cv:ensures (procedure).normalize maps the letters that are not exempt
func normalized(p procedure, old_word, ret string) bool {
	return ret == specNormal(p.spec.script, p.spec.normLetters, p.spec.normReplacer.Replace(old_word))
}

//cv:invariant (procedure).normalize
func normalizing(p procedure, old_word, rest, buf string) bool {
	return buf+specNormal(p.spec.script, p.spec.normLetters, rest) == specNormal(p.spec.script, p.spec.normLetters, p.spec.normReplacer.Replace(old_word))
}

// ---- Partition ----

// specMeant tells whether a character takes part in the transcription.
func specMeant(spec *Spec, ch rune) bool {
	return spec.script.Is(ch) || spec.puncts[ch] || unicode.IsSpace(ch)
}

// specMeaning are the levels of the bytes of a text.
func specMeaning(spec *Spec, text string) []int {
	if text == "" {
		return nil
	}
	ch, n := utf8.DecodeRuneInString(text)
	level := 0
	if specMeant(spec, ch) {
		level = 1
	}
	return append(append([]int{}, subword.CvRep(n, level)...), specMeaning(spec, text[n:])...)
}

// specMarks are the replacements of the characters of the rest of a text by
// themselves.
func specMarks(spec *Spec, text string, at int) []subword.Replacement {
	if text == "" {
		return nil
	}
	ch, n := utf8.DecodeRuneInString(text)
	if specMeant(spec, ch) {
		return append([]subword.Replacement{{at, at + n, text[:n]}}, specMarks(spec, text[n:], at+n)...)
	}
	return specMarks(spec, text[n:], at+n)
}

// specValid tells whether a text has no invalid byte.
func specValid(text string) bool {
	if text == "" {
		return true
	}
	ch, n := utf8.DecodeRuneInString(text)
	return string(ch) == text[:n] && specValid(text[n:])
}

//cv:lemma
func lemmaMarks(spec *Spec, word string, at, from int) {
	subword.LemmaRep(len(word), from, at, 0)
	subword.LemmaRep(len(word), from, len(word), 0)
	if at < len(word) {
		ch, n := utf8.DecodeRuneInString(word[at:])
		if specMeant(spec, ch) {
			lemmaMarks(spec, word, at+n, at+n)
		} else {
			subword.LemmaRepAdd(at-from, n, 0)
			lemmaMarks(spec, word, at+n, from)
		}
	}
}

//cv:decreases lemmaMarks
func lemmaMarksM(word string, at int) int { return len(word) - at }

//cv:requires lemmaMarks
func lemmaMarksR(spec *Spec, word string, at, from int) bool {
	return spec != nil && spec.script != nil && 0 <= from && from <= at && at <= len(word)
}

//cv:ensures lemmaMarks in order
func lemmaMarksOrdered(spec *Spec, word string, at, from int) bool {
	return subword.CvOrdered(specMarks(spec, word[at:], at), from, len(word))
}

//cv:ensures lemmaMarks same text
func lemmaMarksText(spec *Spec, word string, at, from int) bool {
	return subword.CvText(word, specMarks(spec, word[at:], at), from) == word[from:]
}

//cv:ensures lemmaMarks the levels
func lemmaMarksLevels(spec *Spec, word string, at, from int) bool {
	return cvEq(subword.CvLevels(subword.CvRep(len(word), 0), specMarks(spec, word[at:], at), 1, from), append(append([]int{}, subword.CvRep(at-from, 0)...), specMeaning(spec, word[at:])...))
}

//cv:props (procedure).partition C12
//cv:requires (procedure).partition
func partitionPre(p procedure, word string) bool {
	return p.spec != nil && p.spec.script != nil && specValid(word)
}

//cv:ensures (procedure).partition splits at the characters that pass through
func partitioned(p procedure, word string, ret []subword.Subword) bool {
	return cvEq(ret, subword.CvSplit(word, specMeaning(p.spec, word)))
}

//cv:invariant (procedure).partition
func marking(p procedure, word string, rep subword.Replacer, rest string) bool {
	at := len(word) - len(rest)
	lemmaMarks(p.spec, word, 0, 0)
	subword.LemmaRep(len(word), 0, 0, 0)
	return specValid(rest) && subword.CvWord(rep) == word && subword.CvNext(rep) == 1 && cvEq(subword.CvReplacerLevels(rep), subword.CvRep(len(word), 0)) &&
		cvEq(append(append([]subword.Replacement{}, subword.CvRepls(rep)...), specMarks(p.spec, rest, at)...), specMarks(p.spec, word, 0))
}

// specAllSpace tells whether all characters are spaces.
func specAllSpace(text string) bool {
	if text == "" {
		return true
	}
	ch, n := utf8.DecodeRuneInString(text)
	return unicode.IsSpace(ch) && specAllSpace(text[n:])
}

//cv:helper hasSpaceOnly
//cv:ensures hasSpaceOnly has only spaces
func spaceOnly(word string, ret bool) bool { return ret == (word != "" && specAllSpace(word)) }

//cv:invariant hasSpaceOnly
func allSpaceSoFar(word, rest string) bool { return word != "" && specAllSpace(rest) == specAllSpace(word) }

//cv:helper hasSpace
//cv:ensures hasSpace has a space
func anySpace(word string, ret bool) bool { return ret == (strings.IndexFunc(word, unicode.IsSpace) != -1) }

// ---- Rules ----

// specRepls are the replacements of the matches for which the variables map.
func specRepls(r Rule, word string, ms [][]int) []subword.Replacement {
	if len(ms) == 0 {
		return nil
	}
	if !hre.CvMaps(*r.To, *r.From, word, ms[0]) {
		return specRepls(r, word, ms[1:])
	}
	return append([]subword.Replacement{{ms[0][0], ms[0][1], hre.CvTo(*r.To, *r.From, word, ms[0])}}, specRepls(r, word, ms[1:])...)
}

// specApply are the replacements of a rule.
func specApply(r Rule, word string) []subword.Replacement {
	return specRepls(r, word, hre.CvFind(*r.From, word, -1))
}

//cv:lemma
func lemmaRepls(r Rule, word string, ms [][]int, from, n int) {
	if len(ms) > 0 {
		lemmaRepls(r, word, ms[1:], ms[0][1], n)
	}
}

//cv:decreases lemmaRepls
func lemmaReplsM(ms [][]int) int { return len(ms) }

//cv:requires lemmaRepls
func lemmaReplsR(r Rule, ms [][]int, from, n int) bool {
	return r.From != nil && r.To != nil && 0 <= from && from <= n && hre.CvInOrder(ms, from, n)
}

//cv:ensures lemmaRepls in order
func lemmaReplsE(r Rule, word string, ms [][]int, from, n int) bool {
	return subword.CvOrdered(specRepls(r, word, ms), from, n)
}

func specRule(r Rule) bool { return r.From != nil && r.To != nil && hre.CvShaped(*r.From) }

//cv:props (Rule).replacements C05
//cv:requires (Rule).replacements
//cv:requires (Rule).Replace
func rulePre(r Rule) bool { return specRule(r) }

//cv:ensures (Rule).replacements replaces the matches
func ruleReplacements(r Rule, word string, ret []subword.Replacement) bool {
	return cvEq(ret, specApply(r, word))
}

//cv:ensures (Rule).replacements gives disjoint ranges in order
func ruleOrdered(r Rule, word string, ret []subword.Replacement) bool {
	hre.LemmaFind(*r.From, word, -1)
	lemmaRepls(r, word, hre.CvFind(*r.From, word, -1), 0, len(word))
	return subword.CvOrdered(ret, 0, len(word))
}

//cv:invariant (Rule).replacements
func ruleIn(word string, rest [][]int) bool { return len(rest) == 0 || hre.CvInOrder(rest, rest[0][0], len(word)) }

//cv:invariant (Rule).replacements
func ruleReplacing(r Rule, word string, repls []subword.Replacement, rest [][]int) bool {
	return cvEq(append(append([]subword.Replacement{}, repls...), specRepls(r, word, rest)...), specApply(r, word))
}

//cv:props (Rule).Replace C05
//cv:ensures (Rule).Replace replaces the matches
func ruleReplaced(r Rule, word string, ret string) bool {
	return ret == subword.CvText(word, specApply(r, word), 0)
}

// ---- Rules of a spec (properties C06 and C09) ----

//cv:closed hsl.Section *ListSection *DictSection

//cv:pure ext:github.com/hangulize/hangulize/pkg/hre.NewPattern
//cv:pure ext:github.com/hangulize/hangulize/pkg/hre.NewRPattern
//cv:ensures ext:github.com/hangulize/hangulize/pkg/hre.NewPattern
func compiled(ret0 *hre.Pattern, ret1 error) bool { return ret1 != nil || ret0 != nil }

// specLimited tells whether no negative lookaround of the pattern is unlimited.
func specLimited(p *hre.Pattern) bool {
	a, b := p.NegativeLookaroundWidths()
	return a != -1 && b != -1
}

// specCompiles tells whether every pair makes a rule.
//
//cv:opaque
//cv:fuel 1
func specCompiles(pairs []hsl.Pair, macros map[string]string, vars map[string][]string) bool {
	if len(pairs) == 0 {
		return true
	}
	p, err := hre.NewPattern(pairs[0].Left(), macros, vars)
	return err == nil && specLimited(p) && specCompiles(pairs[1:], macros, vars)
}

// specRules is the rule of each pair, in order, with its position.
//
//cv:opaque
//cv:fuel 1
func specRules(pairs []hsl.Pair, macros map[string]string, vars map[string][]string, id int) []Rule {
	if len(pairs) == 0 {
		return nil
	}
	p, _ := hre.NewPattern(pairs[0].Left(), macros, vars)
	return append([]Rule{{id, p, hre.NewRPattern(pairs[0].Right()[0], macros, vars)}}, specRules(pairs[1:], macros, vars, id+1)...)
}

// specValued tells whether every pair has a value.
//
//cv:fuel 1
func specValued(pairs []hsl.Pair) bool {
	return len(pairs) == 0 || len(pairs[0].Right()) > 0 && specValued(pairs[1:])
}

//cv:props newRules C06 C09
//cv:requires newRules
func newRulesPre(pairs []hsl.Pair) bool { return specValued(pairs) }

//cv:ensures newRules refuses what is not a rule
func newRulesErr(pairs []hsl.Pair, macros map[string]string, vars map[string][]string, ret0 []Rule, ret1 error) bool {
	return (ret1 == nil) == specCompiles(pairs, macros, vars) && (ret1 == nil || ret0 == nil)
}

//cv:ensures newRules makes the rules in order
func newRulesOK(pairs []hsl.Pair, macros map[string]string, vars map[string][]string, ret0 []Rule, ret1 error) bool {
	return ret1 != nil || cvEq(ret0, specRules(pairs, macros, vars, 0))
}

//cv:invariant newRules
func makingLen(pairs []hsl.Pair, rules []Rule) bool { return len(rules) == len(pairs) }

//cv:invariant newRules
func makingValued(rest []hsl.Pair) bool { return specValued(rest) }

//cv:invariant newRules
func makingOK(pairs, rest []hsl.Pair, macros map[string]string, vars map[string][]string) bool {
	return specCompiles(pairs, macros, vars) == specCompiles(rest, macros, vars)
}

//cv:invariant newRules
func making(pairs, rest []hsl.Pair, macros map[string]string, vars map[string][]string, rules []Rule) bool {
	n := len(pairs) - len(rest)
	return cvEq(append(append([]Rule{}, rules[:n]...), specRules(rest, macros, vars, n)...), specRules(pairs, macros, vars, 0))
}

//cv:props listPairs C09
//cv:ensures listPairs takes list sections with values only
func listed(sec hsl.Section, ret0 []hsl.Pair, ret1 error) bool {
	list, ok := sec.(*hsl.ListSection)
	if !ok || list == nil || !specValued(list.Pairs()) {
		return ret1 != nil && ret0 == nil
	}
	return ret1 == nil && cvEq(ret0, list.Pairs())
}

//cv:invariant listPairs
func listing(sec hsl.Section, rest []hsl.Pair) bool {
	list, ok := sec.(*hsl.ListSection)
	return ok && specValued(rest) == specValued(list.Pairs())
}

// ---- The cache of bundled specs (property C17) ----

//cv:immutable hangulize.Spec

//cv:pure ext:(embed.FS).ReadFile
//cv:ensures ext:(embed.FS).ReadFile
func readBundled(ret1 error) bool {
	return fs.ErrNotExist != nil && (ret1 == nil || errors.Is(ret1, fs.ErrNotExist))
}

//cv:pure ext:github.com/hangulize/hangulize.ParseSpec

// specBundled tells whether there is a bundled spec of the name.
func specBundled(lang string) bool {
	_, err := f.ReadFile("specs/" + lang + ".hsl")
	return err == nil
}

// specParsed is the bundled spec of the name, and whether it has no error.
func specParsed(lang string) (*Spec, bool) {
	src, _ := f.ReadFile("specs/" + lang + ".hsl")
	spec, err := ParseSpec(strings.NewReader(string(src)))
	return spec, err == nil
}

// specCached tells whether what is cached under a name is the bundled spec of
// the name.
func specCached(cache map[string]*Spec, lang string) bool {
	c, ok := cache[lang]
	if !ok {
		return true
	}
	s, parsed := specParsed(lang)
	return specBundled(lang) && parsed && c == s
}

//cv:props LoadSpec C17
//cv:requires LoadSpec
func loadPre(lang string) bool { return specs != nil && specCached(specs, lang) }

//cv:panics LoadSpec a bundled spec has an error
func loadPanics(lang string) bool {
	_, parsed := specParsed(lang)
	return specBundled(lang) && !parsed
}

//cv:modifies LoadSpec specs
//cv:ensures LoadSpec gives the bundled spec of the name
func loaded(lang string, ret0 *Spec, ret1 error) bool {
	s, _ := specParsed(lang)
	if specBundled(lang) {
		return ret1 == nil && ret0 == s
	}
	return ret0 == nil && errors.Is(ret1, ErrSpecNotFound)
}

//cv:ensures LoadSpec caches it, and nothing else
func loadCached(lang string, old_specs map[string]*Spec) bool {
	s, _ := specParsed(lang)
	if specBundled(lang) {
		return cvEq(specs, cvPut(old_specs, lang, s))
	}
	return cvEq(specs, old_specs)
}

//cv:props UnloadSpec C17
//cv:requires UnloadSpec
func unloadPre() bool { return specs != nil }

//cv:modifies UnloadSpec specs
//cv:ensures UnloadSpec drops the entry, and nothing else
func unloaded(lang string, old_specs map[string]*Spec) bool {
	return cvEq(specs, cvDel(old_specs, lang))
}

// cvOp is one call of LoadSpec or UnloadSpec.
type cvOp struct {
	unload bool
	lang   string
}

// specCache is the cache after a history of calls, the last one first.
//
//cv:opaque
//cv:fuel 1
func specCache(ops []cvOp) map[string]*Spec {
	if len(ops) == 0 {
		return map[string]*Spec{}
	}
	c := specCache(ops[1:])
	if ops[0].unload {
		return cvDel(c, ops[0].lang)
	}
	s, parsed := specParsed(ops[0].lang)
	if specBundled(ops[0].lang) && parsed {
		return cvPut(c, ops[0].lang, s)
	}
	return c
}

// lemmaCache: whatever the history, what is cached under any name is the
// bundled spec of that name, which is what LoadSpec requires.
//
//cv:props lemmaCache C17
//cv:lemma
func lemmaCache(ops []cvOp, lang string) {
	if len(ops) > 0 {
		lemmaCache(ops[1:], lang)
	}
}

//cv:decreases lemmaCache
func lemmaCacheM(ops []cvOp) int { return len(ops) }

//cv:ensures lemmaCache
func lemmaCacheE(ops []cvOp, lang string) bool { return specCached(specCache(ops), lang) }

// ---- Transliteration (property C15) ----

// cvCall is one call of a transliterator.
type cvCall struct {
	t    Translit
	word string
}

// cvCalls are the calls of transliterators so far.
var cvCalls []cvCall

// cvOut is what a transliterator gives after some calls: nothing is assumed of
// it.
//
//cv:opaque
//cv:fuel -100
func cvOut(t Translit, word string, calls []cvCall) string { return "" }

// cvFails tells whether it reports an error.
//
//cv:opaque
//cv:fuel -100
func cvFails(t Translit, word string, calls []cvCall) bool { return false }

//cv:modifies ext:method:hangulize.Translit.Transliterate cvCalls
//cv:ensures ext:method:hangulize.Translit.Transliterate
func cvTransliterated(recv Translit, a0 string, ret0 string, ret1 error, cvCalls, old_cvCalls []cvCall) bool {
	return ret0 == cvOut(recv, a0, old_cvCalls) && (ret1 != nil) == cvFails(recv, a0, old_cvCalls) &&
		cvEq(cvCalls, append(append([]cvCall{}, old_cvCalls...), cvCall{recv, a0}))
}

// specTranslit is the word after the schemes.
func specTranslit(ts map[string]Translit, schemes []string, word string, calls []cvCall) string {
	if len(schemes) == 0 {
		return word
	}
	t, ok := ts[schemes[0]]
	if !ok {
		return word
	}
	out := cvOut(t, word, calls)
	if cvFails(t, word, calls) {
		return out
	}
	return specTranslit(ts, schemes[1:], out, append(append([]cvCall{}, calls...), cvCall{t, word}))
}

// specCalls are the calls up to and with those of the schemes.
func specCalls(ts map[string]Translit, schemes []string, word string, calls []cvCall) []cvCall {
	if len(schemes) == 0 {
		return calls
	}
	t, ok := ts[schemes[0]]
	if !ok {
		return calls
	}
	more := append(append([]cvCall{}, calls...), cvCall{t, word})
	if cvFails(t, word, calls) {
		return more
	}
	return specCalls(ts, schemes[1:], cvOut(t, word, calls), more)
}

// specFailure is how the schemes fail: 1 when one is missing, 2 when one
// reports an error.
func specFailure(ts map[string]Translit, schemes []string, word string, calls []cvCall) int {
	if len(schemes) == 0 {
		return 0
	}
	t, ok := ts[schemes[0]]
	if !ok {
		return 1
	}
	if cvFails(t, word, calls) {
		return 2
	}
	return specFailure(ts, schemes[1:], cvOut(t, word, calls), append(append([]cvCall{}, calls...), cvCall{t, word}))
}

// specPresent tells whether no registered transliterator is nil.
func specPresent(ts map[string]Translit, schemes []string) bool {
	return len(schemes) == 0 || (!cvHas(ts, schemes[0]) || ts[schemes[0]] != nil) && specPresent(ts, schemes[1:])
}

func cvHas(ts map[string]Translit, scheme string) bool {
	_, ok := ts[scheme]
	return ok
}

//cv:props (procedure).transliterate C15
//cv:requires (procedure).transliterate
func transliteratePre(p procedure) bool {
	return p.spec != nil && (p.tracer == nil || p.tracer.fn != nil) && specPresent(p.translits, p.spec.Lang.Translit)
}

//cv:modifies (procedure).transliterate p.tracer.prevWord cvWords cvCalls
//cv:ensures (procedure).transliterate calls the listed schemes in order, and no other
func transliteratedCalls(p procedure, old_word string, cvCalls, old_cvCalls []cvCall) bool {
	return cvEq(cvCalls, specCalls(p.translits, p.spec.Lang.Translit, old_word, old_cvCalls))
}

//cv:ensures (procedure).transliterate each scheme takes what the previous one gave
func transliterated(p procedure, old_word string, ret0 string, ret1 error, old_cvCalls []cvCall) bool {
	return ret1 != nil || ret0 == specTranslit(p.translits, p.spec.Lang.Translit, old_word, old_cvCalls)
}

//cv:ensures (procedure).transliterate reports failures
func transliteratedErr(p procedure, old_word string, ret1 error, old_cvCalls []cvCall) bool {
	switch specFailure(p.translits, p.spec.Lang.Translit, old_word, old_cvCalls) {
	case 1:
		return ret1 != nil && errors.Is(ret1, ErrTranslitNotImported)
	case 2:
		return ret1 != nil && errors.Is(ret1, ErrTranslit)
	}
	return ret1 == nil
}

//cv:invariant (procedure).transliterate
func transliterating(p procedure, old_word, word string, rest []string, cvCalls, old_cvCalls []cvCall) bool {
	all := p.spec.Lang.Translit
	return specTranslit(p.translits, rest, word, cvCalls) == specTranslit(p.translits, all, old_word, old_cvCalls) &&
		cvEq(specCalls(p.translits, rest, word, cvCalls), specCalls(p.translits, all, old_word, old_cvCalls)) &&
		specFailure(p.translits, rest, word, cvCalls) == specFailure(p.translits, all, old_word, old_cvCalls) &&
		specPresent(p.translits, rest)
}

// ---- The steps of the procedure (property C12) ----

// specRewritten is a text after rewrite rules, each applied to the result of
// the previous one.
//
//cv:opaque
//cv:fuel 1
func specRewritten(rules []Rule, text string) string {
	if len(rules) == 0 {
		return text
	}
	return specRewritten(rules[1:], subword.CvText(text, specApply(rules[0], text), 0))
}

// specRewrittenLevels are the levels of its bytes.
//
//cv:opaque
//cv:fuel 1
func specRewrittenLevels(rules []Rule, text string, levels []int) []int {
	if len(rules) == 0 {
		return levels
	}
	rs := specApply(rules[0], text)
	return specRewrittenLevels(rules[1:], subword.CvText(text, rs, 0), subword.CvLevels(levels, rs, 1, 0))
}

// specRules tells whether all rules are well formed.
//
//cv:fuel 1
func specRulesOK(rules []Rule) bool {
	return len(rules) == 0 || specRule(rules[0]) && specRulesOK(rules[1:])
}

// specRewrite are the pieces of the rewritten subwords.
//
//cv:opaque
//cv:fuel 1
func specRewrite(rules []Rule, sws []subword.Subword) []subword.Subword {
	if len(sws) == 0 {
		return nil
	}
	text := sws[0].Word
	pieces := subword.CvSplit(specRewritten(rules, text), specRewrittenLevels(rules, text, subword.CvRep(len(text), sws[0].Level)))
	return append(append([]subword.Subword{}, pieces...), specRewrite(rules, sws[1:])...)
}

//cv:modifies ext:(*github.com/hangulize/hangulize.subwordsTracer).RecordSubword r.records
//cv:ensures ext:(*github.com/hangulize/hangulize.subwordsTracer).RecordSubword
func recorded() bool { return true }

//cv:modifies ext:(*github.com/hangulize/hangulize.subwordsTracer).Commit r.tracer.prevWord cvWords
//cv:ensures ext:(*github.com/hangulize/hangulize.subwordsTracer).Commit
func committed() bool { return true }

//cv:props (procedure).rewrite C12
//cv:requires (procedure).rewrite
func rewritePre(p procedure, subwords []subword.Subword) bool {
	return p.spec != nil && (p.tracer == nil || p.tracer.fn != nil) && specRulesOK(p.spec.Rewrite) && subword.CvNonNeg(subwords)
}

//cv:modifies (procedure).rewrite p.tracer.prevWord cvWords
//cv:ensures (procedure).rewrite applies the rules in order, each to the result of the previous one
func rewritten(p procedure, old_subwords, ret []subword.Subword) bool {
	return cvEq(ret, subword.CvMerge(specRewrite(p.spec.Rewrite, old_subwords)))
}

// lemmaApply: the replacements of a rule are in order.
//
//cv:lemma
func lemmaApply(r Rule, word string) {
	hre.LemmaFind(*r.From, word, -1)
	lemmaRepls(r, word, hre.CvFind(*r.From, word, -1), 0, len(word))
}

//cv:requires lemmaApply
func lemmaApplyR(r Rule) bool { return specRule(r) }

//cv:ensures lemmaApply
func lemmaApplyE(r Rule, word string) bool {
	return subword.CvOrdered(specApply(r, word), 0, len(word))
}

// specKept tells whether a replacer holds a text whose bytes have levels.
func specKept(rep subword.Replacer, text string, next int) bool {
	return subword.CvWord(rep) == text && len(subword.CvRepls(rep)) == 0 && subword.CvNext(rep) == next &&
		len(subword.CvReplacerLevels(rep)) == len(text) && subword.CvNonNegs(subword.CvReplacerLevels(rep))
}

//cv:invariant (procedure).rewrite
func rewriting(p procedure, subwords, rest []subword.Subword, swBuf subword.Builder) bool {
	if len(rest) > 0 {
		subword.LemmaFill(len(rest[0].Word), rest[0].Level)
	}
	return cvEq(append(append([]subword.Subword{}, subword.CvWritten(swBuf)...), specRewrite(p.spec.Rewrite, rest)...), specRewrite(p.spec.Rewrite, subwords))
}

//cv:invariant (procedure).rewrite
func rewritingEnd(p procedure, subwords, rest []subword.Subword, swBuf subword.Builder) bool {
	return len(rest) > 0 || cvEq(subword.CvWritten(swBuf), specRewrite(p.spec.Rewrite, subwords))
}

//cv:invariant (procedure).rewrite
func rewritingNonNeg(rest []subword.Subword, swBuf subword.Builder) bool {
	return subword.CvNonNeg(rest) && subword.CvNonNeg(subword.CvWritten(swBuf))
}

//cv:invariant (procedure).rewrite
func rewritingText(p procedure, word string, rest []Rule, sw subword.Subword) bool {
	return specRulesOK(rest) && specRewritten(rest, word) == specRewritten(p.spec.Rewrite, sw.Word)
}

//cv:invariant (procedure).rewrite
func rewritingLevels(p procedure, word string, rep subword.Replacer, rest []Rule, sw subword.Subword) bool {
	return cvEq(specRewrittenLevels(rest, word, subword.CvReplacerLevels(rep)), specRewrittenLevels(p.spec.Rewrite, sw.Word, subword.CvRep(len(sw.Word), sw.Level)))
}

//cv:invariant (procedure).rewrite
func rewritingKept(word string, rep subword.Replacer, rest []Rule, swBuf subword.Builder) bool {
	levels := subword.CvReplacerLevels(rep)
	if len(rest) > 0 {
		lemmaApply(rest[0], word)
		subword.LemmaLevels(word, levels, specApply(rest[0], word), 1, 0)
	}
	subword.LemmaSplitAll(word, levels)
	subword.LemmaNonNegCat(subword.CvWritten(swBuf), subword.CvSplit(word, levels))
	return specKept(rep, word, 1)
}

// specStill are the replacements of what is not masked yet.
func specStill(mask string, rs []subword.Replacement) []subword.Replacement {
	if len(rs) == 0 {
		return nil
	}
	if strings.Contains(mask[rs[0].Start:rs[0].Stop], "\x00") {
		return specStill(mask, rs[1:])
	}
	return append([]subword.Replacement{rs[0]}, specStill(mask, rs[1:])...)
}

// specNulls masks what is replaced.
func specNulls(rs []subword.Replacement) []subword.Replacement {
	if len(rs) == 0 {
		return nil
	}
	return append([]subword.Replacement{{rs[0].Start, rs[0].Stop, strings.Repeat("\x00", len(rs[0].Word))}}, specNulls(rs[1:])...)
}

// specFresh are the replacements by a transcribe rule.
func specFresh(rule Rule, mask string) []subword.Replacement {
	return specStill(mask, specApply(rule, mask))
}

//cv:lemma
func lemmaStill(mask string, rs []subword.Replacement, from, at int) {
	if len(rs) > 0 {
		if strings.Contains(mask[rs[0].Start:rs[0].Stop], "\x00") {
			lemmaStill(mask, rs[1:], from, rs[0].Stop)
		} else {
			lemmaStill(mask, rs[1:], rs[0].Stop, rs[0].Stop)
		}
	}
}

//cv:decreases lemmaStill
func lemmaStillM(rs []subword.Replacement) int { return len(rs) }

//cv:requires lemmaStill
func lemmaStillR(mask string, rs []subword.Replacement, from, at int) bool {
	return 0 <= from && from <= at && subword.CvOrdered(rs, at, len(mask))
}

//cv:ensures lemmaStill
func lemmaStillE(mask string, rs []subword.Replacement, from, at int) bool {
	return subword.CvOrdered(specStill(mask, rs), from, len(mask))
}

//cv:lemma
func lemmaNulls(mask, text string, rs []subword.Replacement, from int) {
	if len(rs) > 0 {
		lemmaNulls(mask, text, rs[1:], rs[0].Stop)
	}
}

//cv:decreases lemmaNulls
func lemmaNullsM(rs []subword.Replacement) int { return len(rs) }

//cv:requires lemmaNulls
func lemmaNullsR(mask, text string, rs []subword.Replacement, from int) bool {
	return len(mask) == len(text) && subword.CvOrdered(rs, from, len(mask))
}

//cv:ensures lemmaNulls the mask is replaced in the same ranges
func lemmaNullsE(mask, text string, rs []subword.Replacement, from int) bool {
	return subword.CvOrdered(specNulls(rs), from, len(mask))
}

//cv:ensures lemmaNulls the mask stays as long as the text
func lemmaNullsLen(mask, text string, rs []subword.Replacement, from int) bool {
	return len(subword.CvText(mask, specNulls(rs), from)) == len(subword.CvText(text, rs, from))
}

// lemmaFresh: the replacements by a transcribe rule are in order.
//
//cv:lemma
func lemmaFresh(rule Rule, mask, text string) {
	lemmaApply(rule, mask)
	lemmaStill(mask, specApply(rule, mask), 0, 0)
	lemmaNulls(mask, text, specFresh(rule, mask), 0)
}

//cv:requires lemmaFresh
func lemmaFreshR(rule Rule, mask, text string) bool {
	return specRule(rule) && len(mask) == len(text)
}

//cv:ensures lemmaFresh
func lemmaFreshE(rule Rule, mask, text string) bool {
	rs := specFresh(rule, mask)
	return subword.CvOrdered(rs, 0, len(text)) && subword.CvOrdered(specNulls(rs), 0, len(text)) &&
		len(subword.CvText(mask, specNulls(rs), 0)) == len(subword.CvText(text, rs, 0))
}

// specTranscribed is a text after transcribe rules. The mask is the text with
// null bytes for what is transcribed already.
//
//cv:opaque
//cv:fuel 1
func specTranscribed(rules []Rule, mask, text string) string {
	if len(rules) == 0 {
		return text
	}
	rs := specFresh(rules[0], mask)
	return specTranscribed(rules[1:], subword.CvText(mask, specNulls(rs), 0), subword.CvText(text, rs, 0))
}

// specTranscribedLevels are the levels of its bytes.
//
//cv:opaque
//cv:fuel 1
func specTranscribedLevels(rules []Rule, mask string, levels []int) []int {
	if len(rules) == 0 {
		return levels
	}
	rs := specFresh(rules[0], mask)
	return specTranscribedLevels(rules[1:], subword.CvText(mask, specNulls(rs), 0), subword.CvLevels(levels, rs, 2, 0))
}

// specTranscribe are the pieces of the transcribed subwords.
//
//cv:opaque
//cv:fuel 1
func specTranscribe(rules []Rule, sws []subword.Subword) []subword.Subword {
	if len(sws) == 0 {
		return nil
	}
	if sws[0].Level == 0 {
		return append([]subword.Subword{sws[0]}, specTranscribe(rules, sws[1:])...)
	}
	text := sws[0].Word
	pieces := subword.CvSplit(specTranscribed(rules, text, text), specTranscribedLevels(rules, text, subword.CvRep(len(text), sws[0].Level)))
	return append(append([]subword.Subword{}, pieces...), specTranscribe(rules, sws[1:])...)
}

// specDropped drops what was not transcribed, except for a space.
//
//cv:opaque
//cv:fuel 1
func specDropped(sws []subword.Subword) []subword.Subword {
	if len(sws) == 0 {
		return nil
	}
	if sws[0].Level != 1 {
		return append([]subword.Subword{sws[0]}, specDropped(sws[1:])...)
	}
	if strings.IndexFunc(sws[0].Word, unicode.IsSpace) != -1 {
		return append([]subword.Subword{{" ", 1}}, specDropped(sws[1:])...)
	}
	return specDropped(sws[1:])
}

//cv:props (procedure).transcribe C12
//cv:requires (procedure).transcribe
func transcribePre(p procedure, subwords []subword.Subword) bool {
	return p.spec != nil && (p.tracer == nil || p.tracer.fn != nil) && specRulesOK(p.spec.Transcribe) && subword.CvNonNeg(subwords)
}

//cv:modifies (procedure).transcribe p.tracer.prevWord cvWords
//cv:ensures (procedure).transcribe applies the rules in order to what is not transcribed yet, and drops the rest
func transcribed(p procedure, old_subwords, ret []subword.Subword) bool {
	return cvEq(ret, subword.CvMerge(specDropped(subword.CvMerge(specTranscribe(p.spec.Transcribe, old_subwords)))))
}

//cv:invariant (procedure).transcribe
func transcribing(p procedure, old_subwords, rest []subword.Subword, swBuf subword.Builder) bool {
	if len(rest) > 0 {
		subword.LemmaFill(len(rest[0].Word), rest[0].Level)
		subword.LemmaFill(len(rest[0].Word), 0)
	}
	return cvEq(append(append([]subword.Subword{}, subword.CvWritten(swBuf)...), specTranscribe(p.spec.Transcribe, rest)...), specTranscribe(p.spec.Transcribe, old_subwords))
}

//cv:invariant (procedure).transcribe
func transcribingEnd(p procedure, old_subwords, rest []subword.Subword, swBuf subword.Builder) bool {
	if len(rest) == 0 {
		subword.LemmaMergeAll(subword.CvWritten(swBuf))
	}
	return len(rest) > 0 || cvEq(subword.CvWritten(swBuf), specTranscribe(p.spec.Transcribe, old_subwords))
}

//cv:invariant (procedure).transcribe
func transcribingNonNeg(rest []subword.Subword, swBuf subword.Builder) bool {
	if len(rest) > 0 {
		subword.LemmaNonNegCat(subword.CvWritten(swBuf), rest[:1])
		subword.LemmaNonNegCat(subword.CvWritten(swBuf), []subword.Subword{{" ", 1}})
	}
	return subword.CvNonNeg(rest) && subword.CvNonNeg(subword.CvWritten(swBuf))
}

//cv:invariant (procedure).transcribe
func transcribingRules(rest []Rule) bool { return specRulesOK(rest) }

//cv:invariant (procedure).transcribe
func transcribingText(p procedure, word string, rep subword.Replacer, rest []Rule, sw subword.Subword) bool {
	return specTranscribed(rest, word, subword.CvWord(rep)) == specTranscribed(p.spec.Transcribe, sw.Word, sw.Word)
}

//cv:invariant (procedure).transcribe
func transcribingLevels(p procedure, word string, rep subword.Replacer, rest []Rule, sw subword.Subword) bool {
	return cvEq(specTranscribedLevels(rest, word, subword.CvReplacerLevels(rep)), specTranscribedLevels(p.spec.Transcribe, sw.Word, subword.CvRep(len(sw.Word), sw.Level)))
}

//cv:invariant (procedure).transcribe
func transcribingKept(word string, rep subword.Replacer, rest []Rule, swBuf subword.Builder) bool {
	text, levels := subword.CvWord(rep), subword.CvReplacerLevels(rep)
	if len(rest) > 0 {
		lemmaFresh(rest[0], word, text)
		subword.LemmaLevels(text, levels, specFresh(rest[0], word), 2, 0)
	}
	subword.LemmaSplitAll(text, levels)
	subword.LemmaNonNegCat(subword.CvWritten(swBuf), subword.CvSplit(text, levels))
	return specKept(rep, text, 2)
}

//cv:invariant (procedure).transcribe
func transcribingMask(word string, rep, dummy subword.Replacer, rest []Rule) bool {
	if len(rest) > 0 {
		lemmaFresh(rest[0], word, subword.CvWord(rep))
		subword.LemmaLevels(word, subword.CvReplacerLevels(dummy), specNulls(specFresh(rest[0], word)), 0, 0)
	}
	return specKept(dummy, word, 0) && len(word) == len(subword.CvWord(rep))
}

//cv:invariant (procedure).transcribe
func transcribingIn(word string, rest []subword.Replacement) bool {
	return len(rest) == 0 || subword.CvOrdered(rest, rest[0].Start, len(word))
}

//cv:invariant (procedure).transcribe
func transcribingStill(word string, rule Rule, repls, rest []subword.Replacement) bool {
	return cvEq(append(append([]subword.Replacement{}, repls...), specStill(word, rest)...), specFresh(rule, word))
}

//cv:invariant (procedure).transcribe
func transcribingNulls(word string, rule Rule, dummy subword.Replacer, rest []subword.Replacement) bool {
	return subword.CvWord(dummy) == word && subword.CvNext(dummy) == 0 &&
		cvEq(append(append([]subword.Replacement{}, subword.CvRepls(dummy)...), specNulls(rest)...), specNulls(specFresh(rule, word)))
}

//cv:invariant (procedure).transcribe
func transcribingDropped(subwords, rest []subword.Subword, swBuf subword.Builder) bool {
	return cvEq(append(append([]subword.Subword{}, subword.CvWritten(swBuf)...), specDropped(rest)...), specDropped(subwords))
}
