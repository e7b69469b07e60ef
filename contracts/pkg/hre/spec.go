package hre

import "unicode/utf8"

// Executable specification of finding and replacing (properties C03, C04 and
// C05).

// specShift moves the submatches found in the rest of a word to where the rest
// begins.
//
//cv:fuel 1
func specShift(m []int, offset int) []int {
	if len(m) == 0 {
		return nil
	}
	if m[0] == -1 {
		return append([]int{-1}, specShift(m[1:], offset)...)
	}
	return append([]int{m[0] + offset}, specShift(m[1:], offset)...)
}

// specStart is where the match begins, after the lookbehind.

func specStart(m []int) int {
	if m[5] == -1 {
		return m[0]
	}
	return m[5]
}

// specStop is where the match ends, before the lookahead.
func specStop(m []int) int {
	if m[len(m)-4] == -1 {
		return m[1]
	}
	return m[len(m)-4]
}

// specNext is the text of the next n characters of a text.
//
//cv:fuel 1
func specNext(s string, n int) string {
	if n <= 0 || s == "" {
		return ""
	}
	_, size := utf8.DecodeRuneInString(s)
	return s[:size] + specNext(s[size:], n-1)
}

// specPrev is the text of the last n characters of a text.
//
//cv:fuel 1
func specPrev(s string, n int) string {
	if n <= 0 || s == "" {
		return ""
	}
	_, size := utf8.DecodeLastRuneInString(s)
	return specPrev(s[:len(s)-size], n-1) + s[len(s)-size:]
}

// specAhead is the text that a negative lookahead of a width looks at.
func specAhead(s string, at, width int) string {
	if at < 0 || at > len(s) {
		return ""
	}
	if width == -1 {
		return s[at:]
	}
	return specNext(s[at:], width)
}

// specBehind is the text that a negative lookbehind of a width looks at.
func specBehind(s string, at, width int) string {
	if at < 0 || at > len(s) {
		return ""
	}
	if width == -1 {
		return s[:at]
	}
	return specPrev(s[:at], width)
}

// specRejected tells whether a negative lookaround of the pattern excludes a
// candidate.
//
//cv:opaque
//cv:fuel 1
func specRejected(p Pattern, word string, m []int) bool {
	return p.negA != nil && p.negA.MatchString(specAhead(word, m[len(m)-4], p.negAWidth)) ||
		p.negB != nil && p.negB.MatchString(specBehind(word, m[5], p.negBWidth))
}

// specMatch is the match and its captured variables.
func specMatch(m []int) []int {
	return append([]int{specStart(m), specStop(m)}, m[6:len(m)-4]...)
}

// specFind finds at most n matches, in order, from an offset on.
//
//cv:opaque
//cv:fuel 0
func specFind(p Pattern, word string, offset, n int) [][]int {
	if offset < 0 || offset >= len(word) || n == 0 {
		return nil
	}
	m := specShift(p.re.FindStringSubmatchIndex(word[offset:]), offset)
	if len(m) < 10 || specStop(m) <= offset {
		return nil
	}
	if specRejected(p, word, m) {
		return specFind(p, word, specStop(m), n)
	}
	return append([][]int{specMatch(m)}, specFind(p, word, specStop(m), n-1)...)
}

// specIndex is the position of the first value equal to val, or -1.
func specIndex(val string, vals []string) int {
	if len(vals) == 0 {
		return -1
	}
	if vals[0] == val {
		return 0
	}
	i := specIndex(val, vals[1:])
	if i < 0 {
		return -1
	}
	return i + 1
}

// specCaptured is the text of a submatch.
func specCaptured(word string, m []int, k int) string {
	start, stop := m[2*k], m[2*k+1]
	if start < 0 || start > len(word) || stop < start {
		return ""
	}
	if stop > len(word) {
		return word[start:]
	}
	return word[start:stop]
}

// specMaps tells whether the variables of a right side, from the k-th variable
// of the pattern on, map to values.
func specMaps(parts []rPart, used [][]string, word string, m []int, k int) bool {
	if len(parts) == 0 {
		return true
	}
	if parts[0].tok != toVar {
		return specMaps(parts[1:], used, word, m, k)
	}
	return k < len(used) && 2*(k+1)+1 < len(m) && len(parts[0].usedVar) > 0 &&
		specIndex(specCaptured(word, m, k+1), used[k]) >= 0 && specMaps(parts[1:], used, word, m, k+1)
}

// specTo is the text that a right side stands for, if it maps.
func specTo(parts []rPart, used [][]string, word string, m []int, k int) string {
	if len(parts) == 0 {
		return ""
	}
	if parts[0].tok == plain {
		return parts[0].lit + specTo(parts[1:], used, word, m, k)
	}
	if parts[0].tok != toVar {
		return specTo(parts[1:], used, word, m, k)
	}
	to := parts[0].usedVar
	return to[specIndex(specCaptured(word, m, k+1), used[k])%len(to)] + specTo(parts[1:], used, word, m, k+1)
}

// specReplaced is the rest of a word, from an offset on, with the matches
// replaced.
func specReplaced(p Pattern, rp RPattern, word string, ms [][]int, offset int) string {
	if len(ms) == 0 {
		return word[offset:]
	}
	m := ms[0]
	to := word[m[0]:m[1]]
	if specMaps(rp.parts, p.usedVars, word, m, 0) {
		to = specTo(rp.parts, p.usedVars, word, m, 0)
	}
	return word[offset:m[0]] + to + specReplaced(p, rp, word, ms[1:], m[1])
}
