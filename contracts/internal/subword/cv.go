package subword

func cvEq[T any](a, b T) bool { return true }

//cv:props NewReplacer C02
//cv:props (*Replacer).Replace C02
//cv:props (*Replacer).ReplaceBy C02
//cv:props (*Replacer).String C02
//cv:props (*Replacer).Subwords C02
//cv:props NewBuilder C02
//cv:props (*Builder).Write C02
//cv:props (*Builder).String C02
//cv:props (*Builder).Reset C02
//cv:props (*Builder).Subwords C02
//cv:props NewReplacement C02
//cv:props New C02

//cv:ensures New is the text with the level
func newSubword(word string, level int, ret Subword) bool {
	return ret.Word == word && ret.Level == level
}

//cv:ensures NewReplacement is the range with the text
func newReplacement(start, stop int, word string, ret Replacement) bool {
	return ret.Start == start && ret.Stop == stop && ret.Word == word
}

//cv:ensures NewReplacer starts with the word at the previous level
func newReplacer(word string, prevLevel, nextLevel int, ret Replacer) bool {
	return cvEq(ret, Replacer{word, nil, specRep(len(word), prevLevel), nextLevel})
}

//cv:ensures NewReplacer gives every byte a level
func newReplacerLevels(word string, prevLevel int, ret Replacer) bool {
	lemmaRepLen(len(word), prevLevel)
	return len(ret.levels) == len(word)
}

//cv:invariant NewReplacer
func filling(levels []int, i int, word string, prevLevel int) bool {
	return len(levels) == len(word) && cvEq(levels[:i], specRep(i, prevLevel))
}

//cv:modifies (*Replacer).Replace r.repls
//cv:ensures (*Replacer).Replace buffers the replacement after the others
func replaced(r, old_r Replacer, start, stop int, word string) bool {
	return cvEq(r.repls, append(old_r.repls, Replacement{start, stop, word}))
}

//cv:modifies (*Replacer).ReplaceBy r.repls
//cv:ensures (*Replacer).ReplaceBy buffers the replacements after the others
func replacedBy(r, old_r Replacer, repls []Replacement) bool {
	return cvEq(r.repls, append(old_r.repls, repls...))
}

// ---- applying ----

//cv:helper (*Replacer).commit
//cv:requires (*Replacer).commit
//cv:requires (*Replacer).String
//cv:requires (*Replacer).Subwords
func wellFormed(r Replacer) bool {
	return len(r.levels) == len(r.word) && specOrdered(r.repls, 0, len(r.word))
}

func specCommitted(r Replacer) Replacer {
	return Replacer{specText(r.word, r.repls, 0), nil, specLevels(r.levels, r.repls, r.nextLevel, 0), r.nextLevel}
}

//cv:modifies (*Replacer).commit r
//cv:ensures (*Replacer).commit applies exactly the buffered replacements
//cv:modifies (*Replacer).String r
//cv:modifies (*Replacer).Subwords r
//cv:ensures (*Replacer).String applies exactly the buffered replacements
//cv:ensures (*Replacer).Subwords applies exactly the buffered replacements
func committed(r, old_r Replacer) bool {
	return cvEq(r, specCommitted(old_r))
}

//cv:ensures (*Replacer).String returns the replaced text
func text(old_r Replacer, ret string) bool {
	return ret == specText(old_r.word, old_r.repls, 0)
}

//cv:ensures (*Replacer).Subwords splits where the level changes
func split(old_r Replacer, ret []Subword) bool {
	c := specCommitted(old_r)
	lemmaLengths(old_r.word, old_r.levels, old_r.repls, old_r.nextLevel, 0)
	return cvEq(ret, specSplitAll(c.word, c.levels))
}

// The loop over the replacements.
//
//cv:invariant (*Replacer).commit
//cv:invariant (*Replacer).String
//cv:invariant (*Replacer).Subwords
func applying(buf string, rest []Replacement, offset int, old_r, r Replacer) bool {
	return specOrdered(rest, offset, len(r.word)) && buf+specText(r.word, rest, offset) == specText(old_r.word, old_r.repls, 0)
}

//cv:invariant (*Replacer).commit
//cv:invariant (*Replacer).String
//cv:invariant (*Replacer).Subwords
func leveling(levels []int, rest []Replacement, offset int, old_r, r Replacer) bool {
	return cvEq(append(levels, specLevels(r.levels, rest, r.nextLevel, offset)...), specLevels(old_r.levels, old_r.repls, old_r.nextLevel, 0))
}

// The loop over the bytes of a replacement.
//
//cv:invariant (*Replacer).commit
//cv:invariant (*Replacer).String
//cv:invariant (*Replacer).Subwords
func repeating(levels, pre_levels []int, i int, r Replacer) bool {
	return i >= 0 && cvEq(levels, append(pre_levels, specRep(i, r.nextLevel)...))
}

// The loop which splits.
//
//cv:invariant (*Replacer).Subwords
func splitting(subwords []Subword, buf string, level int, i int, r Replacer) bool {
	return i >= 0 && cvEq(append(subwords, specSplit(r.word[i:], r.levels[i:], buf, level)...), specSplitAll(r.word, r.levels))
}

// ---- merging ----

//cv:ensures NewBuilder holds the subwords
func newBuilder(subwords []Subword, ret Builder) bool { return cvEq(ret.subwords, subwords) }

//cv:modifies (*Builder).Write b
//cv:ensures (*Builder).Write adds the subwords after the others
func written(b, old_b Builder, subwords []Subword) bool {
	return cvEq(b.subwords, append(old_b.subwords, subwords...))
}

//cv:modifies (*Builder).Reset b
//cv:ensures (*Builder).Reset leaves nothing
func reset(b Builder) bool { return len(b.subwords) == 0 }

//cv:ensures (*Builder).String is the concatenation
func concatenated(b Builder, ret string) bool { return ret == specConcat(b.subwords) }

//cv:invariant (*Builder).String
func concatenating(b Builder, buf string, rest []Subword) bool {
	return buf+specConcat(rest) == specConcat(b.subwords)
}

//cv:requires (*Builder).Subwords
func levelsNotNegative(b Builder) bool { return specNonNeg(b.subwords) }

//cv:ensures (*Builder).Subwords merges neighbours of equal level
func merged(b Builder, ret []Subword) bool { return cvEq(ret, specMergeAll(b.subwords)) }

//cv:invariant (*Builder).Subwords
func merging(b Builder, subwords []Subword, buf string, mergingLevel int, rest []Subword) bool {
	return cvEq(append(subwords, specMergeFrom(rest, buf, mergingLevel)...), specMergeAll(b.subwords)) && specNonNeg(rest) && mergingLevel >= -1
}

//cv:invariant (*Builder).Subwords
func mergingStart(subwords []Subword, buf string, mergingLevel int, rest []Subword) bool {
	return mergingLevel != -1 || buf == "" && len(subwords) == 0 && len(rest) > 0
}

func specMergeFrom(rest []Subword, buf string, level int) []Subword {
	if level == -1 {
		return specMergeAll(rest)
	}
	return specMerge(rest, buf, level)
}

// ---- what splitting and merging imply ----

//cv:props lemmaSplit C02
//cv:props lemmaMerge C02

//cv:lemma
func lemmaRepLen(n, level int) {
	if n > 0 {
		lemmaRepLen(n-1, level)
	}
}

//cv:decreases lemmaRepLen
func lemmaRepLenM(n int) int { return n }

//cv:requires lemmaRepLen
func lemmaRepLenR(n int) bool { return n >= 0 }

//cv:ensures lemmaRepLen
func lemmaRepLenE(n, level int) bool { return len(specRep(n, level)) == n }

//cv:lemma
func lemmaRepAdd(n, m, level int) {
	if m > 0 {
		lemmaRepAdd(n, m-1, level)
	}
}

//cv:decreases lemmaRepAdd
func lemmaRepAddM(m int) int { return m }

//cv:requires lemmaRepAdd
func lemmaRepAddR(n, m int) bool { return n >= 0 && m >= 0 }

//cv:ensures lemmaRepAdd
func lemmaRepAddE(n, m, level int) bool {
	return cvEq(append(specRep(n, level), specRep(m, level)...), specRep(n+m, level))
}

// Every byte has a level.
//
//cv:lemma
func lemmaLengths(word string, levels []int, repls []Replacement, next, from int) {
	if len(repls) > 0 {
		lemmaRepLen(len(repls[0].Word), next)
		lemmaLengths(word, levels, repls[1:], next, repls[0].Stop)
	}
}

//cv:decreases lemmaLengths
func lemmaLengthsM(repls []Replacement) int { return len(repls) }

//cv:requires lemmaLengths
func lemmaLengthsR(word string, levels []int, repls []Replacement, from int) bool {
	return len(word) == len(levels) && specOrdered(repls, from, len(word))
}

//cv:ensures lemmaLengths
func lemmaLengthsE(word string, levels []int, repls []Replacement, next, from int) bool {
	return len(specText(word, repls, from)) == len(specLevels(levels, repls, next, from))
}

//cv:invariant (*Replacer).Subwords
func everyByteHasALevel(old_r Replacer, r Replacer) bool {
	lemmaLengths(old_r.word, old_r.levels, old_r.repls, old_r.nextLevel, 0)
	return len(r.word) == len(r.levels)
}

// The pieces concatenate to the text, keep the level of every byte, and
// neighbours differ in their level.
//
//cv:lemma
func lemmaSplit(word string, levels []int, text string, level int) {
	if word == "" {
		return
	}
	if levels[0] != level {
		lemmaSplit(word[1:], levels[1:], word[:1], levels[0])
	} else {
		lemmaSplit(word[1:], levels[1:], text+word[:1], level)
	}
}

//cv:decreases lemmaSplit
func lemmaSplitM(word string) int { return len(word) }

//cv:requires lemmaSplit
func lemmaSplitR(word string, levels []int) bool { return len(word) == len(levels) }

//cv:ensures lemmaSplit the texts concatenate to the result
func lemmaSplitConcat(word string, levels []int, text string, level int) bool {
	return specConcat(specSplit(word, levels, text, level)) == text+word
}

//cv:ensures lemmaSplit every byte keeps its level
func lemmaSplitLevels(word string, levels []int, text string, level int) bool {
	return cvEq(specByteLevels(specSplit(word, levels, text, level)), append(specRep(len(text), level), levels...))
}

//cv:ensures lemmaSplit neighbours differ in their level
func lemmaSplitApart(word string, levels []int, text string, level int) bool {
	s := specSplit(word, levels, text, level)
	return len(s) > 0 && s[0].Level == level && specApart(s)
}

//cv:lemma
func lemmaMerge(subwords []Subword, text string, level int) {
	if len(subwords) == 0 {
		return
	}
	if subwords[0].Level != level {
		lemmaMerge(subwords[1:], subwords[0].Word, subwords[0].Level)
	} else {
		lemmaRepAdd(len(text), len(subwords[0].Word), level)
		lemmaMerge(subwords[1:], text+subwords[0].Word, level)
	}
}

//cv:decreases lemmaMerge
func lemmaMergeM(subwords []Subword) int { return len(subwords) }

//cv:ensures lemmaMerge the texts concatenate to the result
func lemmaMergeConcat(subwords []Subword, text string, level int) bool {
	return specConcat(specMerge(subwords, text, level)) == text+specConcat(subwords)
}

//cv:ensures lemmaMerge every byte keeps its level
func lemmaMergeLevels(subwords []Subword, text string, level int) bool {
	return cvEq(specByteLevels(specMerge(subwords, text, level)), append(specRep(len(text), level), specByteLevels(subwords)...))
}

//cv:ensures lemmaMerge neighbours differ in their level
func lemmaMergeApart(subwords []Subword, text string, level int) bool {
	s := specMerge(subwords, text, level)
	return len(s) > 0 && s[0].Level == level && specApart(s)
}

// ---- For the contracts of other packages ----

func CvOrdered(repls []Replacement, from, n int) bool { return specOrdered(repls, from, n) }

func CvText(word string, repls []Replacement, from int) string { return specText(word, repls, from) }

func CvLevels(levels []int, repls []Replacement, next, from int) []int {
	return specLevels(levels, repls, next, from)
}

func CvRep(n, level int) []int { return specRep(n, level) }

func CvSplit(word string, levels []int) []Subword { return specSplitAll(word, levels) }

func CvMerge(subwords []Subword) []Subword { return specMergeAll(subwords) }

func CvNonNeg(subwords []Subword) bool { return specNonNeg(subwords) }

// CvIs tells the state of a replacer.
func CvIs(r Replacer, word string, repls []Replacement, levels []int, next int) bool {
	return r.word == word && cvEq(r.repls, repls) && cvEq(r.levels, levels) && r.nextLevel == next
}

func CvWord(r Replacer) string { return r.word }

func CvRepls(r Replacer) []Replacement { return r.repls }

func CvReplacerLevels(r Replacer) []int { return r.levels }

func CvNext(r Replacer) int { return r.nextLevel }

func CvWritten(b Builder) []Subword { return b.subwords }

//cv:lemma
func LemmaRep(n, a, b, level int) {
	lemmaRepLen(n, level)
	if n > 0 {
		lemmaRepLen(n-1, level)
		if b < n {
			LemmaRep(n-1, a, b, level)
		} else if a < n {
			LemmaRep(n-1, a, n-1, level)
		}
	}
}

//cv:decreases LemmaRep
func lemmaRepM(n int) int { return n }

//cv:requires LemmaRep
func lemmaRepR(n, a, b int) bool { return 0 <= a && a <= b && b <= n }

//cv:ensures LemmaRep
func lemmaRepSlice(n, a, b, level int) bool {
	return len(specRep(n, level)) == n && cvEq(specRep(n, level)[a:b], specRep(b-a, level))
}

//cv:lemma
func LemmaRepAdd(n, m, level int) { lemmaRepAdd(n, m, level) }

//cv:requires LemmaRepAdd
func lemmaRepAddPre(n, m int) bool { return n >= 0 && m >= 0 }

//cv:ensures LemmaRepAdd
func lemmaRepAddPost(n, m, level int) bool {
	return cvEq(append(CvRep(n, level), CvRep(m, level)...), CvRep(n+m, level))
}

// CvNonNegs tells whether no level of a byte is negative.
//
//cv:fuel 1
func CvNonNegs(levels []int) bool {
	return len(levels) == 0 || levels[0] >= 0 && CvNonNegs(levels[1:])
}

//cv:lemma
func lemmaNonNegsCat(a, b []int) {
	if len(a) > 0 {
		lemmaNonNegsCat(a[1:], b)
	}
}

//cv:decreases lemmaNonNegsCat
func lemmaNonNegsCatM(a []int) int { return len(a) }

//cv:ensures lemmaNonNegsCat
func lemmaNonNegsCatE(a, b []int) bool {
	return CvNonNegs(append(append([]int{}, a...), b...)) == (CvNonNegs(a) && CvNonNegs(b))
}

//cv:lemma
func lemmaNonNegsRep(n, level int) {
	if n > 0 {
		lemmaNonNegsRep(n-1, level)
		lemmaNonNegsCat(specRep(n-1, level), []int{level})
	}
}

//cv:decreases lemmaNonNegsRep
func lemmaNonNegsRepM(n int) int { return n }

//cv:requires lemmaNonNegsRep
func lemmaNonNegsRepR(n, level int) bool { return n >= 0 && level >= 0 }

//cv:ensures lemmaNonNegsRep
func lemmaNonNegsRepE(n, level int) bool { return CvNonNegs(specRep(n, level)) }

// LemmaFill: a new replacer is well formed.
//
//cv:lemma
func LemmaFill(n, level int) {
	lemmaRepLen(n, level)
	lemmaNonNegsRep(n, level)
}

//cv:requires LemmaFill
func lemmaFillR(n, level int) bool { return n >= 0 && level >= 0 }

//cv:ensures LemmaFill
func lemmaFillE(n, level int) bool { return len(CvRep(n, level)) == n && CvNonNegs(CvRep(n, level)) }

// LemmaLevels: replacing keeps a replacer well formed.
//
//cv:lemma
func LemmaLevels(word string, levels []int, repls []Replacement, next, from int) {
	lemmaLengths(word, levels, repls, next, from)
	if len(repls) == 0 {
		lemmaNonNegsCat(levels[:from], levels[from:])
		return
	}
	r := repls[0]
	LemmaLevels(word, levels, repls[1:], next, r.Stop)
	lemmaNonNegsRep(len(r.Word), next)
	lemmaNonNegsCat(levels[:from], levels[from:])
	lemmaNonNegsCat(levels[from:r.Start], levels[r.Start:])
	lemmaNonNegsCat(levels[from:r.Start], specRep(len(r.Word), next))
	lemmaNonNegsCat(append(append([]int{}, levels[from:r.Start]...), specRep(len(r.Word), next)...), specLevels(levels, repls[1:], next, r.Stop))
}

//cv:decreases LemmaLevels
func lemmaLevelsM(repls []Replacement) int { return len(repls) }

//cv:requires LemmaLevels
func lemmaLevelsR(word string, levels []int, repls []Replacement, next, from int) bool {
	return len(word) == len(levels) && specOrdered(repls, from, len(word)) && CvNonNegs(levels) && next >= 0
}

//cv:ensures LemmaLevels every byte has a level
func lemmaLevelsLen(word string, levels []int, repls []Replacement, next, from int) bool {
	return len(CvText(word, repls, from)) == len(CvLevels(levels, repls, next, from))
}

//cv:ensures LemmaLevels no level is negative
func lemmaLevelsNonNeg(word string, levels []int, repls []Replacement, next, from int) bool {
	return CvNonNegs(CvLevels(levels, repls, next, from))
}

//cv:lemma
func lemmaSplitNonNeg(word string, levels []int, text string, level int) {
	if word == "" {
		return
	}
	if levels[0] != level {
		lemmaSplitNonNeg(word[1:], levels[1:], word[:1], levels[0])
	} else {
		lemmaSplitNonNeg(word[1:], levels[1:], text+word[:1], level)
	}
}

//cv:decreases lemmaSplitNonNeg
func lemmaSplitNonNegM(word string) int { return len(word) }

//cv:requires lemmaSplitNonNeg
func lemmaSplitNonNegR(word string, levels []int, level int) bool {
	return len(word) == len(levels) && CvNonNegs(levels) && level >= 0
}

//cv:ensures lemmaSplitNonNeg
func lemmaSplitNonNegE(word string, levels []int, text string, level int) bool {
	return specNonNeg(specSplit(word, levels, text, level))
}

// LemmaSplitAll: no level of a piece is negative.
//
//cv:lemma
func LemmaSplitAll(word string, levels []int) {
	if word != "" {
		lemmaSplitNonNeg(word[1:], levels[1:], word[:1], levels[0])
	}
}

//cv:requires LemmaSplitAll
func lemmaSplitAllR(word string, levels []int) bool {
	return len(word) == len(levels) && CvNonNegs(levels)
}

//cv:ensures LemmaSplitAll
func lemmaSplitAllE(word string, levels []int) bool { return CvNonNeg(CvSplit(word, levels)) }

//cv:lemma
func LemmaNonNegCat(a, b []Subword) {
	if len(a) > 0 {
		LemmaNonNegCat(a[1:], b)
	}
}

//cv:decreases LemmaNonNegCat
func lemmaNonNegCatM(a []Subword) int { return len(a) }

//cv:ensures LemmaNonNegCat
func lemmaNonNegCatE(a, b []Subword) bool {
	return CvNonNeg(append(append([]Subword{}, a...), b...)) == (CvNonNeg(a) && CvNonNeg(b))
}

//cv:lemma
func lemmaMergeNonNeg(subwords []Subword, text string, level int) {
	if len(subwords) == 0 {
		return
	}
	if subwords[0].Level != level {
		lemmaMergeNonNeg(subwords[1:], subwords[0].Word, subwords[0].Level)
	} else {
		lemmaMergeNonNeg(subwords[1:], text+subwords[0].Word, level)
	}
}

//cv:decreases lemmaMergeNonNeg
func lemmaMergeNonNegM(subwords []Subword) int { return len(subwords) }

//cv:requires lemmaMergeNonNeg
func lemmaMergeNonNegR(subwords []Subword, level int) bool { return specNonNeg(subwords) && level >= 0 }

//cv:ensures lemmaMergeNonNeg
func lemmaMergeNonNegE(subwords []Subword, text string, level int) bool {
	return specNonNeg(specMerge(subwords, text, level))
}

// LemmaMergeAll: merging keeps levels not negative.
//
//cv:lemma
func LemmaMergeAll(subwords []Subword) {
	if len(subwords) > 0 {
		lemmaMergeNonNeg(subwords[1:], subwords[0].Word, subwords[0].Level)
	}
}

//cv:requires LemmaMergeAll
func lemmaMergeAllR(subwords []Subword) bool { return CvNonNeg(subwords) }

//cv:ensures LemmaMergeAll
func lemmaMergeAllE(subwords []Subword) bool { return CvNonNeg(CvMerge(subwords)) }
