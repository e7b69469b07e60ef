package hre

import (
	"regexp"
	"regexp/syntax"
	"strings"
)

func cvEq[T any](a, b T) bool { return true }

//cv:immutable hre.Pattern
//cv:immutable hre.RPattern

// ---- The regexp engine ----

// specShaped tells that a regexp has been composed by NewPattern: it begins with
// the groups of the left edge and the lookbehind, ends with the groups of the
// lookahead and the right edge, and doesn't match the empty string between them.
//
//cv:opaque
//cv:fuel -100
func specShaped(re *regexp.Regexp) bool { return re != nil }

//cv:pure ext:(*regexp.Regexp).MatchString
//cv:pure ext:(*regexp.Regexp).FindStringSubmatchIndex
//cv:fresh ext:(*regexp.Regexp).FindStringSubmatchIndex
//cv:ensures ext:(*regexp.Regexp).FindStringSubmatchIndex
func engine(re *regexp.Regexp, s string, ret []int) bool {
	return len(ret) == 0 || len(ret) >= 2 && specPairs(ret, len(s))
}

//cv:ensures ext:(*regexp.Regexp).FindStringSubmatchIndex
func engineShaped(re *regexp.Regexp, s string, ret []int) bool {
	return !specShaped(re) || specShapedMatch(ret, len(s))
}

// specShapedMatch tells whether there is no match or one of a shaped regexp.
//
//cv:opaque
//cv:fuel 0
func specShapedMatch(m []int, n int) bool {
	return len(m) == 0 || len(m) >= 10 && 0 <= specStart(m) && specStart(m) < specStop(m) && specStop(m) <= n &&
		-1 <= m[5] && m[5] <= n && -1 <= m[len(m)-4] && m[len(m)-4] <= n
}

// specPairs tells whether every pair of indices is unset or a range.
//
//cv:fuel 0
func specPairs(m []int, n int) bool {
	if len(m) == 0 {
		return true
	}
	if len(m) == 1 {
		return false
	}
	return (m[0] == -1 && m[1] == -1 || 0 <= m[0] && m[0] <= m[1] && m[1] <= n) && specPairs(m[2:], n)
}

// ---- Helpers ----

//cv:helper indexOf
//cv:ensures indexOf is the first position
func indexed(val string, vals []string, ret int) bool { return ret == specIndex(val, vals) }

//cv:ensures indexOf is a position or -1
func indexedFrom(ret int) bool { return ret >= -1 }

//cv:invariant indexOf
func indexing(val string, vals, rest []string) bool {
	n := len(vals) - len(rest)
	i := specIndex(val, rest)
	return i == -1 && specIndex(val, vals) == -1 || i >= 0 && specIndex(val, vals) == n+i
}

//cv:helper substr

//cv:helper advance
//cv:ensures advance skips n characters
func advanced(s string, i, old_i, old_n int, ret int) bool {
	if old_i < 0 || old_i > len(s) {
		return ret == old_i
	}
	return old_i <= ret && ret <= len(s) && s[old_i:ret] == specNext(s[old_i:], old_n)
}

//cv:invariant advance
func advancing(s string, i, n, old_i, old_n int) bool {
	if old_i < 0 || old_i > len(s) {
		return i == old_i
	}
	return old_i <= i && i <= len(s) && s[old_i:i]+specNext(s[i:], n) == specNext(s[old_i:], old_n)
}

//cv:helper retreat
//cv:requires retreat
func retreatPre(s string, i int) bool { return i <= len(s) }

//cv:ensures retreat skips n characters back
func retreated(s string, old_i, old_n int, ret int) bool {
	if old_i < 0 {
		return ret == old_i
	}
	return 0 <= ret && ret <= old_i && s[ret:old_i] == specPrev(s[:old_i], old_n)
}

//cv:invariant retreat
func retreating(s string, i, n, old_i, old_n int) bool {
	if old_i < 0 {
		return i == old_i
	}
	return 0 <= i && i <= old_i && specPrev(s[:i], n)+s[i:old_i] == specPrev(s[:old_i], old_n)
}

// ---- Finding ----

//cv:lemma
func lemmaShift(m []int, offset, k int) {
	if len(m) > 0 {
		lemmaShift(m[1:], offset, k-1)
	}
}

//cv:decreases lemmaShift
func lemmaShiftM(m []int) int { return len(m) }

//cv:ensures lemmaShift the same length
func lemmaShiftLen(m []int, offset, k int) bool { return len(specShift(m, offset)) == len(m) }

//cv:ensures lemmaShift every index is shifted
func lemmaShiftAt(m []int, offset, k int) bool {
	return specShiftedAt(m, specShift(m, offset), offset, k)
}

//cv:opaque
//cv:fuel 0
func specShiftedAt(m, to []int, offset, k int) bool {
	return k < 0 || k >= len(m) || m[k] == -1 && to[k] == -1 || m[k] != -1 && to[k] == m[k]+offset
}

//cv:props (*Pattern).Find C03 C04
//cv:requires (*Pattern).Find
func findPre(p *Pattern) bool { return specShaped(p.re) }

//cv:ensures (*Pattern).Find finds every candidate that no lookaround excludes
func found(p *Pattern, word string, n int, ret [][]int) bool {
	return cvEq(ret, specFind(*p, word, 0, n))
}

//cv:ensures (*Pattern).Find reports matches in order
func foundInOrder(p *Pattern, word string, n int, ret [][]int) bool {
	lemmaFind(*p, word, 0, n)
	return specInOrder(ret, 0, len(word))
}

//cv:invariant (*Pattern).Find
func findingIn(word string, n int, matches [][]int, offset int) bool {
	return 0 <= offset && offset <= len(word) && (n < 0 || len(matches) <= n)
}

//cv:invariant (*Pattern).Find
func finding(p *Pattern, word string, n int, matches [][]int, offset int) bool {
	return cvEq(append(append([][]int{}, matches...), specFind(*p, word, offset, n-len(matches))...), specFind(*p, word, 0, n))
}

//cv:measure (*Pattern).Find
func findM(word string, offset int) int { return len(word) - offset }

//cv:invariant (*Pattern).Find
func shiftingLen(m, pre_m, done []int) bool { return len(m) == len(pre_m) }

//cv:invariant (*Pattern).Find
func shifting(m, pre_m, done, rest []int, offset int) bool {
	return cvEq(append(append([]int{}, done...), specShift(rest, offset)...), specShift(pre_m, offset))
}

//cv:invariant (*Pattern).Find
func shifted(m, pre_m []int, offset int) bool {
	lemmaShift(pre_m, offset, 0)
	lemmaShift(pre_m, offset, 1)
	lemmaShift(pre_m, offset, 5)
	lemmaShift(pre_m, offset, len(pre_m)-4)
	return true
}

// ---- What finding implies ----

//cv:props lemmaFind C03
//cv:props lemmaBound C03
//cv:props lemmaShift C03 C04
//cv:props lemmaShiftPairs C03
//cv:props lemmaCut C03
//cv:props lemmaCons C03

//cv:lemma
func lemmaShiftPairs(m []int, offset, n int) {
	if len(m) > 1 {
		lemmaShiftPairs(m[2:], offset, n)
	}
}

//cv:decreases lemmaShiftPairs
func lemmaShiftPairsM(m []int) int { return len(m) }

//cv:requires lemmaShiftPairs
func lemmaShiftPairsR(m []int, offset, n int) bool { return offset >= 0 && specPairs(m, n) }

//cv:ensures lemmaShiftPairs
func lemmaShiftPairsE(m []int, offset, n int) bool { return specPairs(specShift(m, offset), n+offset) }

// Pairs within pairs.
//
//cv:lemma
func lemmaCut(m []int, from, to, n int) {
	if from > 0 {
		lemmaCut(m[2:], from-2, to-2, n)
	} else if to > 0 {
		lemmaCut(m[2:], 0, to-2, n)
	}
}

//cv:decreases lemmaCut
func lemmaCutM(m []int) int { return len(m) }

//cv:requires lemmaCut
func lemmaCutR(m []int, from, to, n int) bool {
	return specPairs(m, n) && 0 <= from && from <= to && to <= len(m) && from%2 == 0 && to%2 == 0
}

//cv:ensures lemmaCut
func lemmaCutE(m []int, from, to, n int) bool { return specPairs(m[from:to], n) }

// specInOrder tells whether the matches are non-empty, disjoint and in order
// within a word of n bytes, from an offset on.
func specInOrder(ms [][]int, from, n int) bool {
	if len(ms) == 0 {
		return true
	}
	return len(ms[0]) >= 2 && from <= ms[0][0] && ms[0][0] < ms[0][1] && ms[0][1] <= n && specInOrder(ms[1:], ms[0][1], n)
}

//cv:lemma
func lemmaCons(m []int, rest [][]int, from, n int) {}

//cv:requires lemmaCons
func lemmaConsR(m []int, rest [][]int, from, n int) bool {
	return len(m) >= 2 && from <= m[0] && m[0] < m[1] && m[1] <= n && specInOrder(rest, m[1], n)
}

//cv:ensures lemmaCons
func lemmaConsE(m []int, rest [][]int, from, n int) bool {
	return specInOrder(append([][]int{m}, rest...), from, n)
}

//cv:lemma
func lemmaFind(p Pattern, word string, offset, n int) {
	if offset >= 0 && offset < len(word) && n != 0 {
		m := p.re.FindStringSubmatchIndex(word[offset:])
		lemmaShift(m, offset, 0)
		lemmaShift(m, offset, 1)
		lemmaShift(m, offset, 5)
		lemmaShift(m, offset, len(m)-4)
		s := specShift(m, offset)
		if len(s) >= 10 && specStop(s) > offset {
			if specRejected(p, word, s) {
				lemmaFind(p, word, specStop(s), n)
			} else {
				lemmaFind(p, word, specStop(s), n-1)
				lemmaCons(specMatch(s), specFind(p, word, specStop(s), n-1), offset, len(word))
			}
		}
	}
}

//cv:decreases lemmaFind
func lemmaFindM(word string, offset int) int { return len(word) - offset }

//cv:requires lemmaFind
func lemmaFindR(p Pattern, word string, offset int) bool {
	return specShaped(p.re) && 0 <= offset && offset <= len(word)
}

//cv:ensures lemmaFind in range, non-empty, disjoint and in order
func lemmaFindOrder(p Pattern, word string, offset, n int) bool {
	return specInOrder(specFind(p, word, offset, n), offset, len(word))
}

//cv:lemma
func lemmaBound(p Pattern, word string, offset, n, m int) {
	if offset >= 0 && offset < len(word) && n != 0 {
		s := specShift(p.re.FindStringSubmatchIndex(word[offset:]), offset)
		if len(s) >= 10 && specStop(s) > offset {
			if specRejected(p, word, s) {
				lemmaBound(p, word, specStop(s), n, m)
			} else {
				lemmaBound(p, word, specStop(s), n-1, m-1)
			}
		}
	}
}

//cv:decreases lemmaBound
func lemmaBoundM(word string, offset int) int { return len(word) - offset }

//cv:requires lemmaBound
func lemmaBoundR(p Pattern, word string, offset, n, m int) bool {
	return n >= 0 && m < 0
}

//cv:ensures lemmaBound at most n
func lemmaBoundN(p Pattern, word string, offset, n, m int) bool {
	return len(specFind(p, word, offset, n)) <= n
}

//cv:ensures lemmaBound the first ones
func lemmaBoundFirst(p Pattern, word string, offset, n, m int) bool {
	few, all := specFind(p, word, offset, n), specFind(p, word, offset, m)
	return len(few) <= len(all) && cvEq(few, all[:len(few)]) && (len(few) == n || len(few) == len(all))
}

//cv:props lemmaSub C03
//cv:props lemmaEven C03
//cv:props lemmaSubCons C03

//cv:lemma
func lemmaEven(m []int, n int) {
	if len(m) > 1 {
		lemmaEven(m[2:], n)
	}
}

//cv:decreases lemmaEven
func lemmaEvenM(m []int) int { return len(m) }

//cv:requires lemmaEven
func lemmaEvenR(m []int, n int) bool { return specPairs(m, n) }

//cv:ensures lemmaEven
func lemmaEvenE(m []int, n int) bool { return len(m)%2 == 0 }

// specSubmatches tells whether every submatch is unset or a range.
func specSubmatches(ms [][]int, n int) bool {
	if len(ms) == 0 {
		return true
	}
	return len(ms[0]) >= 2 && specPairs(ms[0][2:], n) && specSubmatches(ms[1:], n)
}

//cv:lemma
func lemmaSubCons(m []int, rest [][]int, n int) {}

//cv:requires lemmaSubCons
func lemmaSubConsR(m []int, rest [][]int, n int) bool {
	return len(m) >= 2 && specPairs(m[2:], n) && specSubmatches(rest, n)
}

//cv:ensures lemmaSubCons
func lemmaSubConsE(m []int, rest [][]int, n int) bool {
	return specSubmatches(append([][]int{m}, rest...), n)
}

//cv:lemma
func lemmaSub(p Pattern, word string, offset, n int) {
	if offset >= 0 && offset < len(word) && n != 0 {
		m := p.re.FindStringSubmatchIndex(word[offset:])
		s := specShift(m, offset)
		lemmaShift(m, offset, 0)
		lemmaShiftPairs(m, offset, len(word)-offset)
		if len(s) >= 10 && specStop(s) > offset {
			lemmaEven(s, len(word))
			lemmaCut(s, 6, len(s)-4, len(word))
			if specRejected(p, word, s) {
				lemmaSub(p, word, specStop(s), n)
			} else {
				lemmaSub(p, word, specStop(s), n-1)
				lemmaSubCons(specMatch(s), specFind(p, word, specStop(s), n-1), len(word))
			}
		}
	}
}

//cv:decreases lemmaSub
func lemmaSubM(word string, offset int) int { return len(word) - offset }

//cv:ensures lemmaSub every submatch is unset or within the word
func lemmaSubE(p Pattern, word string, offset, n int) bool {
	return specSubmatches(specFind(p, word, offset, n), len(word))
}

// ---- Replacing ----

//cv:props (*RPattern).Interpolate C05
//cv:ensures (*RPattern).Interpolate substitutes the variables
func interpolated(rp *RPattern, p *Pattern, word string, m []int, ret0 string) bool {
	if specMaps(rp.parts, p.usedVars, word, m, 0) {
		return ret0 == specTo(rp.parts, p.usedVars, word, m, 0)
	}
	return ret0 == ""
}

//cv:ensures (*RPattern).Interpolate reports that the variables don't map
func interpolatedErr(rp *RPattern, p *Pattern, word string, m []int, ret1 error) bool {
	return (ret1 == nil) == specMaps(rp.parts, p.usedVars, word, m, 0)
}

//cv:invariant (*RPattern).Interpolate
func interpolatingK(varIndex int) bool { return varIndex >= 0 }

//cv:invariant (*RPattern).Interpolate
func interpolatingMaps(rp *RPattern, p *Pattern, word string, m []int, rest []rPart, varIndex int) bool {
	return specMaps(rest, p.usedVars, word, m, varIndex) == specMaps(rp.parts, p.usedVars, word, m, 0)
}

//cv:invariant (*RPattern).Interpolate
func interpolating(rp *RPattern, p *Pattern, word string, m []int, rest []rPart, varIndex int, buf string) bool {
	return !specMaps(rp.parts, p.usedVars, word, m, 0) || buf+specTo(rest, p.usedVars, word, m, varIndex) == specTo(rp.parts, p.usedVars, word, m, 0)
}

//cv:props (*Pattern).Replace C05
//cv:requires (*Pattern).Replace
func replacePre(p *Pattern) bool { return specShaped(p.re) }

//cv:ensures (*Pattern).Replace substitutes exactly the matches
func replaced(p *Pattern, word string, rpat *RPattern, n int, ret string) bool {
	return ret == specReplaced(*p, *rpat, word, specFind(*p, word, 0, n), 0)
}

//cv:invariant (*Pattern).Replace
func replacingIn(word string, rest [][]int, cur int) bool {
	return 0 <= cur && cur <= len(word) && specInOrder(rest, cur, len(word))
}

//cv:invariant (*Pattern).Replace
func replacing(p *Pattern, word string, rpat *RPattern, n int, rest [][]int, cur int, buf string) bool {
	return buf+specReplaced(*p, *rpat, word, rest, cur) == specReplaced(*p, *rpat, word, specFind(*p, word, 0, n), 0)
}

// ---- Reading right sides ----

//cv:pure ext:(*regexp.Regexp).FindAllStringSubmatchIndex
//cv:ensures ext:(*regexp.Regexp).FindAllStringSubmatchIndex
func engineAll(re *regexp.Regexp, s string, n int, ret [][]int) bool {
	return specDisjoint(ret, 0, len(s))
}

// specDisjoint tells whether ranges are disjoint and in order.
func specDisjoint(ms [][]int, from, n int) bool {
	if len(ms) == 0 {
		return true
	}
	return len(ms[0]) >= 2 && from <= ms[0][0] && ms[0][0] <= ms[0][1] && ms[0][1] <= n && specDisjoint(ms[1:], ms[0][1], n)
}

// specParts are the texts and the variables of a right side.
func specParts(expr string, ms [][]int, vars map[string][]string, offset int) []rPart {
	if len(ms) == 0 {
		if expr[offset:] == "" {
			return nil
		}
		return []rPart{{plain, expr[offset:], nil}}
	}
	v := expr[ms[0][0]:ms[0][1]]
	parts := append([]rPart{{toVar, v, vars[strings.Trim(v, "<>")]}}, specParts(expr, ms[1:], vars, ms[0][1])...)
	if ms[0][0] > offset {
		return append([]rPart{{plain, expr[offset:ms[0][0]], nil}}, parts...)
	}
	return parts
}

//cv:helper getVar

//cv:pure ext:github.com/hangulize/hangulize/pkg/hre.expandMacros
//cv:pure ext:github.com/hangulize/hangulize/pkg/hre.regexpLetters

//cv:props NewRPattern C05
//cv:ensures NewRPattern reads the texts and the variables
func readRPattern(expr string, macros map[string]string, vars map[string][]string, ret *RPattern) bool {
	e := expandMacros(expr, macros)
	return ret.expr == expr && cvEq(ret.parts, specParts(e, reVar.FindAllStringSubmatchIndex(e, -1), vars, 0))
}

//cv:invariant NewRPattern
func readingIn(_expr string, rest [][]int, offset int) bool {
	return 0 <= offset && offset <= len(_expr) && specDisjoint(rest, offset, len(_expr))
}

//cv:invariant NewRPattern
func reading(_expr string, vars map[string][]string, parts []rPart, rest [][]int, offset int) bool {
	return cvEq(append(append([]rPart{}, parts...), specParts(_expr, rest, vars, offset)...), specParts(_expr, reVar.FindAllStringSubmatchIndex(_expr, -1), vars, 0))
}

// ---- For the contracts of other packages ----

func CvShaped(p Pattern) bool { return specShaped(p.re) }

func CvFind(p Pattern, word string, n int) [][]int { return specFind(p, word, 0, n) }

func CvMaps(rp RPattern, p Pattern, word string, m []int) bool {
	return specMaps(rp.parts, p.usedVars, word, m, 0)
}

func CvTo(rp RPattern, p Pattern, word string, m []int) string {
	return specTo(rp.parts, p.usedVars, word, m, 0)
}

func CvInOrder(ms [][]int, from, n int) bool { return specInOrder(ms, from, n) }

//cv:lemma
func LemmaFind(p Pattern, word string, n int) { lemmaFind(p, word, 0, n) }

//cv:requires LemmaFind
func lemmaFindPre(p Pattern) bool { return CvShaped(p) }

//cv:ensures LemmaFind
func lemmaFindPost(p Pattern, word string, n int) bool {
	return CvInOrder(CvFind(p, word, n), 0, len(word))
}

//cv:decreases specFind
func specFindM(word string, offset int) int { return len(word) - offset }

// ---------------------------------------------------------------------------
// Width of regular expressions (property C06)

// cvSize is the size of a parsed regular expression. Assumed: a part is smaller
// than the whole, for the parser builds trees, and the only negative limit of
// repetitions is -1.
//
//cv:pure ext:github.com/hangulize/hangulize/pkg/hre.cvSize

func cvSize(re *syntax.Regexp) int { return 0 }

//cv:ensures ext:github.com/hangulize/hangulize/pkg/hre.cvSize
func cvSizeAxiom(re *syntax.Regexp, ret int) bool {
	return ret >= 1 && ret > cvSizes(re.Sub) && (!specUnary(re) || re.Sub0[0] != nil && ret > cvSize(re.Sub0[0])) && re.Max >= -1 && specTrees(re.Sub)
}

// specUnary tells whether the expression has exactly one part.
func specUnary(re *syntax.Regexp) bool {
	return re.Op == syntax.OpCapture || re.Op == syntax.OpQuest || re.Op == syntax.OpRepeat || re.Op == syntax.OpStar || re.Op == syntax.OpPlus
}

//cv:fuel 1
func specTrees(res []*syntax.Regexp) bool {
	return len(res) == 0 || res[0] != nil && specTrees(res[1:])
}

//cv:fuel 1
func cvSizes(res []*syntax.Regexp) int {
	if len(res) == 0 {
		return 0
	}
	return cvSize(res[0]) + 1 + cvSizes(res[1:])
}

//cv:decreases specWidth
func specWidthM(re *syntax.Regexp) int { return cvSize(re) }

// specWidth is the number of letters that a match of the expression consumes at
// most, or -1 when it is unlimited.
//
//cv:fuel 1
func specWidth(re *syntax.Regexp) int {
	switch re.Op {
	case syntax.OpLiteral:
		return len(re.Rune)
	case syntax.OpCharClass, syntax.OpAnyCharNotNL, syntax.OpAnyChar:
		return 1
	case syntax.OpStar, syntax.OpPlus:
		return -1
	case syntax.OpCapture, syntax.OpQuest:
		return specWidth(re.Sub0[0])
	case syntax.OpRepeat:
		if re.Max == -1 {
			return -1
		}
		if re.Max == 0 || specWidth(re.Sub0[0]) == 0 {
			return 0
		}
		if specWidth(re.Sub0[0]) == -1 {
			return -1
		}
		return re.Max * specWidth(re.Sub0[0])
	case syntax.OpConcat:
		return specSum(re.Sub)
	case syntax.OpAlternate:
		return specMax(re.Sub)
	}
	return 0
}

// specSum is the total of the widths of concatenated expressions.
//
//cv:opaque
//cv:fuel 1
func specSum(res []*syntax.Regexp) int {
	if len(res) == 0 {
		return 0
	}
	if specWidth(res[0]) < 0 || specSum(res[1:]) < 0 {
		return -1
	}
	return specWidth(res[0]) + specSum(res[1:])
}

//cv:decreases specSum
func specSumM(res []*syntax.Regexp) int {
	lemmaSizes(res)
	if len(res) > 0 {
		lemmaSizes(res[1:])
	}
	return cvSizes(res)
}

// specMax is the biggest of the widths of alternatives.
//
//cv:opaque
//cv:fuel 1
func specMax(res []*syntax.Regexp) int {
	if len(res) == 0 {
		return 0
	}
	if specWidth(res[0]) < 0 || specMax(res[1:]) < 0 {
		return -1
	}
	if specWidth(res[0]) > specMax(res[1:]) {
		return specWidth(res[0])
	}
	return specMax(res[1:])
}

//cv:decreases specMax
func specMaxM(res []*syntax.Regexp) int {
	lemmaSizes(res)
	if len(res) > 0 {
		lemmaSizes(res[1:])
	}
	return cvSizes(res)
}

//cv:props RegexpMaxWidth C06
//cv:decreases RegexpMaxWidth
func regexpMaxWidthM(re *syntax.Regexp) int { return cvSize(re) }

//cv:ensures RegexpMaxWidth is the width
func regexpMaxWidthE(re *syntax.Regexp, ret int) bool { return ret == specWidth(re) && ret >= -1 }

//cv:invariant RegexpMaxWidth
func summing(re *syntax.Regexp, rest []*syntax.Regexp, total int) bool {
	lemmaSum(rest)
	if specSum(rest) == -1 {
		return specSum(re.Sub) == -1
	}
	return total >= 0 && specSum(re.Sub) == total+specSum(rest)
}

//cv:invariant RegexpMaxWidth
func taking(re *syntax.Regexp, rest []*syntax.Regexp, max int) bool {
	lemmaMax(rest)
	if specMax(rest) == -1 {
		return specMax(re.Sub) == -1
	}
	return max >= 0 && (max >= specMax(rest) && specMax(re.Sub) == max || max <= specMax(rest) && specMax(re.Sub) == specMax(rest))
}

//cv:invariant RegexpMaxWidth
func sizing(re *syntax.Regexp, rest []*syntax.Regexp) bool {
	lemmaSizes(rest)
	if len(rest) > 0 {
		lemmaSizes(rest[1:])
	}
	return cvSizes(rest) <= cvSizes(re.Sub)
}

//cv:props lemmaSizes C06
//cv:lemma
func lemmaSizes(res []*syntax.Regexp) {
	if len(res) > 0 {
		lemmaSizes(res[1:])
	}
}

//cv:decreases lemmaSizes
func lemmaSizesM(res []*syntax.Regexp) int { return len(res) }

//cv:ensures lemmaSizes
func lemmaSizesE(res []*syntax.Regexp) bool { return cvSizes(res) >= 0 }

//cv:props lemmaSum C06
//cv:lemma
func lemmaSum(res []*syntax.Regexp) {}

//cv:ensures lemmaSum
func lemmaSumE(res []*syntax.Regexp) bool { return specSum(res) >= -1 }

//cv:props lemmaMax C06
//cv:lemma
func lemmaMax(res []*syntax.Regexp) {}

//cv:ensures lemmaMax
func lemmaMaxE(res []*syntax.Regexp) bool { return specMax(res) >= -1 }

// specUnlimited tells whether an unlimited repetition of the expression, or of a
// part of it that can occur, is present.
//
//cv:opaque
//cv:fuel 1
func specUnlimited(re *syntax.Regexp) bool {
	switch re.Op {
	case syntax.OpStar, syntax.OpPlus:
		return true
	case syntax.OpRepeat:
		return re.Max == -1 || re.Max != 0 && specUnlimited(re.Sub0[0])
	case syntax.OpCapture, syntax.OpQuest:
		return specUnlimited(re.Sub0[0])
	case syntax.OpConcat, syntax.OpAlternate:
		return specAnyUnlimited(re.Sub)
	}
	return false
}

//cv:decreases specUnlimited
func specUnlimitedM(re *syntax.Regexp) int { return cvSize(re) }

//cv:opaque
//cv:fuel 1
func specAnyUnlimited(res []*syntax.Regexp) bool {
	return len(res) > 0 && (specUnlimited(res[0]) || specAnyUnlimited(res[1:]))
}

//cv:decreases specAnyUnlimited
func specAnyUnlimitedM(res []*syntax.Regexp) int {
	lemmaSizes(res)
	if len(res) > 0 {
		lemmaSizes(res[1:])
	}
	return cvSizes(res)
}

//cv:opaque
//cv:fuel 1
func specWidths(res []*syntax.Regexp) bool {
	return len(res) == 0 || specWidth(res[0]) >= -1 && (specWidth(res[0]) == -1) == specUnlimited(res[0]) && specWidths(res[1:])
}

//cv:props lemmaUnlimited C06
//cv:props lemmaUnlimitedOne C06

//cv:lemma
func lemmaUnlimitedOne(re *syntax.Regexp) {
}

//cv:requires lemmaUnlimitedOne
func lemmaUnlimitedOneR(re *syntax.Regexp) bool {
	return (specSum(re.Sub) == -1) == specAnyUnlimited(re.Sub) && (specMax(re.Sub) == -1) == specAnyUnlimited(re.Sub) && specSum(re.Sub) >= -1 && specMax(re.Sub) >= -1 &&
		(!specUnary(re) || specWidth(re.Sub0[0]) >= -1 && (specWidth(re.Sub0[0]) == -1) == specUnlimited(re.Sub0[0])) && re.Max >= -1
}

//cv:ensures lemmaUnlimitedOne
func lemmaUnlimitedOneE(re *syntax.Regexp) bool {
	return specWidth(re) >= -1 && (specWidth(re) == -1) == specUnlimited(re)
}

//cv:lemma
func lemmaUnlimited(res []*syntax.Regexp) {
	if len(res) > 0 {
		lemmaUnlimited(res[1:])
		lemmaUnlimited(res[0].Sub)
		if specUnary(res[0]) {
			lemmaUnlimited(append([]*syntax.Regexp{}, res[0].Sub0[0]))
		}
		lemmaUnlimitedOne(res[0])
	}
}

//cv:decreases lemmaUnlimited
func lemmaUnlimitedM(res []*syntax.Regexp) int {
	lemmaSizes(res)
	if len(res) > 0 {
		lemmaSizes(res[1:])
	}
	return cvSizes(res)
}

//cv:ensures lemmaUnlimited
func lemmaUnlimitedE(res []*syntax.Regexp) bool {
	return specWidths(res) && (specSum(res) == -1) == specAnyUnlimited(res) && (specMax(res) == -1) == specAnyUnlimited(res) && specSum(res) >= -1 && specMax(res) >= -1
}

//cv:requires lemmaUnlimited
func lemmaUnlimitedR(res []*syntax.Regexp) bool { return specTrees(res) }
