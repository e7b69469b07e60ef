package subword

// ---- What replacing and merging mean (property C02) ----

// specOrdered tells whether ranges are in order, apart and within [from, n].
func specOrdered(repls []Replacement, from, n int) bool {
	if len(repls) == 0 {
		return 0 <= from && from <= n
	}
	r := repls[0]
	return 0 <= from && from <= r.Start && r.Start <= r.Stop && r.Stop <= n && specOrdered(repls[1:], r.Stop, n)
}

// specText is the text from an offset on, with the ranges replaced.
func specText(word string, repls []Replacement, from int) string {
	if len(repls) == 0 {
		return word[from:]
	}
	r := repls[0]
	return word[from:r.Start] + r.Word + specText(word, repls[1:], r.Stop)
}

// specRep is n times the level.
func specRep(n, level int) []int {
	if n <= 0 {
		return nil
	}
	return append(specRep(n-1, level), level)
}

// specLevels are the levels of the bytes of specText.
func specLevels(levels []int, repls []Replacement, next, from int) []int {
	if len(repls) == 0 {
		return levels[from:]
	}
	r := repls[0]
	return append(append(append([]int{}, levels[from:r.Start]...), specRep(len(r.Word), next)...), specLevels(levels, repls[1:], next, r.Stop)...)
}

// specSplit cuts a text where the level changes. A piece with the given text and
// level is open.
func specSplit(word string, levels []int, text string, level int) []Subword {
	if word == "" {
		return []Subword{{text, level}}
	}
	if levels[0] != level {
		return append([]Subword{{text, level}}, specSplit(word[1:], levels[1:], word[:1], levels[0])...)
	}
	return specSplit(word[1:], levels[1:], text+word[:1], level)
}

// specMerge merges adjoining subwords of equal level. One is open.
func specMerge(subwords []Subword, text string, level int) []Subword {
	if len(subwords) == 0 {
		return []Subword{{text, level}}
	}
	sw := subwords[0]
	if sw.Level != level {
		return append([]Subword{{text, level}}, specMerge(subwords[1:], sw.Word, sw.Level)...)
	}
	return specMerge(subwords[1:], text+sw.Word, level)
}

// specConcat is the text of subwords.
func specConcat(subwords []Subword) string {
	if len(subwords) == 0 {
		return ""
	}
	return subwords[0].Word + specConcat(subwords[1:])
}

// specByteLevels are the levels of the bytes of subwords.
func specByteLevels(subwords []Subword) []int {
	if len(subwords) == 0 {
		return nil
	}
	return append(append([]int{}, specRep(len(subwords[0].Word), subwords[0].Level)...), specByteLevels(subwords[1:])...)
}

// specApart tells whether neighbours have different levels.
func specApart(subwords []Subword) bool {
	if len(subwords) < 2 {
		return true
	}
	return subwords[0].Level != subwords[1].Level && specApart(subwords[1:])
}

// specNonNeg tells whether no level is negative.
func specNonNeg(subwords []Subword) bool {
	return len(subwords) == 0 || subwords[0].Level >= 0 && specNonNeg(subwords[1:])
}

// specSplitAll splits a whole text.
func specSplitAll(word string, levels []int) []Subword {
	if word == "" {
		return nil
	}
	return specSplit(word[1:], levels[1:], word[:1], levels[0])
}

// specMergeAll merges a whole list.
func specMergeAll(subwords []Subword) []Subword {
	if len(subwords) == 0 {
		return nil
	}
	return specMerge(subwords[1:], subwords[0].Word, subwords[0].Level)
}
