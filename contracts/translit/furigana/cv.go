package furigana

import (
	"strings"
	"unicode/utf8"

	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
)

//cv:props repeatKana C18
//cv:props toSeion C18
//cv:props toDakuon C18
//cv:props isHiragana C18
//cv:props isKatakana C18

//cv:helper toSeion
//cv:ensures toSeion removes the voicing mark
func seion(ch, ret rune) bool { return ret == specSeion(ch) }

//cv:helper toDakuon
//cv:ensures toDakuon adds the voiced sound mark
func dakuon(ch, ret rune) bool { return ret == specDakuon(ch) }

//cv:helper isHiragana
//cv:ensures isHiragana is the Unicode block
func hiragana(ch rune, ret bool) bool { return ret == specHiragana(ch) }

//cv:helper isKatakana
//cv:ensures isKatakana is the Unicode block
func katakana(ch rune, ret bool) bool { return ret == specKatakana(ch) }

//cv:ensures repeatKana resolves exactly the iteration marks
func repeated(word, ret string) bool { return ret == specRepeat(word, 0) }

//cv:ensures repeatKana keeps the number of characters
func sameNumber(word, ret string) bool {
	lemmaSameNumber(word, 0)
	return utf8.RuneCountInString(ret) == utf8.RuneCountInString(word)
}

//cv:invariant repeatKana
func repeating(buf, rest, old_word string, lastCh rune) bool {
	return buf+specRepeat(rest, lastCh) == specRepeat(old_word, 0)
}

// ---- what follows from the definition ----

func validRune(r rune) bool {
	return 0 <= r && r <= 0xd7ff || 0xe000 <= r && r <= 0x10ffff
}

// Resolving gives characters.
//
//cv:lemma
func lemmaResolveValid(last, ch rune) {}

//cv:props lemmaResolveValid C18
//cv:requires lemmaResolveValid
func lemmaResolveValidPre(last, ch rune) bool { return validRune(last) && validRune(ch) }

//cv:ensures lemmaResolveValid resolving gives characters
func lemmaResolveValidIs(last, ch rune) bool { return validRune(specResolve(last, ch)) }

// Resolving keeps the number of characters.
//
//cv:lemma
func lemmaSameNumber(s string, last rune) {
	if s != "" {
		ch, n := utf8.DecodeRuneInString(s)
		lemmaResolveValid(last, ch)
		lemmaSameNumber(s[n:], specResolve(last, ch))
	}
}

//cv:props lemmaSameNumber C18
//cv:requires lemmaSameNumber
func lemmaSameNumberValid(s string, last rune) bool { return validRune(last) }

//cv:ensures lemmaSameNumber resolving keeps the number of characters
func lemmaSameNumberIs(s string, last rune) bool {
	return utf8.RuneCountInString(specRepeat(s, last)) == utf8.RuneCountInString(s)
}

//cv:decreases lemmaSameNumber
func lemmaSameNumberDec(s string, last rune) int { return len(s) }

// Voicing stays within the script and is undone by unvoicing.
//
//cv:lemma
func lemmaVoicing(ch rune) {}

//cv:props lemmaVoicing C18
//cv:ensures lemmaVoicing voicing stays within the script
func lemmaVoicingScript(ch rune) bool {
	return specHiragana(specSeion(ch)) == specHiragana(ch) && specKatakana(specSeion(ch)) == specKatakana(ch) &&
		specHiragana(specDakuon(ch)) == specHiragana(ch) && specKatakana(specDakuon(ch)) == specKatakana(ch)
}

//cv:ensures lemmaVoicing unvoicing undoes voicing
func lemmaVoicingInverse(ch rune) bool {
	return (specDakuon(ch) == ch || specSeion(specDakuon(ch)) == ch) &&
		(specSeion(ch) == ch || specDakuon(specSeion(ch)) == ch || specHalfVoiced(ch))
}

// ---- long vowels ----

//cv:props mergeLongVowels C19

//cv:ensures mergeLongVowels merges exactly the long vowels
func long(word string, offset int, ret string) bool { return ret == specLong(word, 0, offset) }

//cv:ensures mergeLongVowels keeps the number of characters
func longNumber(word string, offset int, ret string) bool {
	lemmaLongNumber(word, 0, offset)
	return utf8.RuneCountInString(ret) == utf8.RuneCountInString(word)
}

//cv:ensures mergeLongVowels keeps what is before the offset
func longHead(word string, offset int, ret string) bool {
	lemmaLongHead(word, 0, offset)
	return specHead(ret, offset) == specHead(word, offset)
}

//cv:invariant mergeLongVowels
func lengthening(buf, rest, old_word string, prevCh rune, offset, i int) bool {
	return buf+specLong(rest, prevCh, offset-i) == specLong(old_word, 0, offset)
}

// Merging keeps the number of characters.
//
//cv:lemma
func lemmaLongNumber(s string, prev rune, skip int) {
	if s != "" {
		ch, n := utf8.DecodeRuneInString(s)
		lemmaLongNumber(s[n:], ch, skip-1)
	}
}

//cv:props lemmaLongNumber C19
//cv:ensures lemmaLongNumber merging keeps the number of characters
func lemmaLongNumberIs(s string, prev rune, skip int) bool {
	return utf8.RuneCountInString(specLong(s, prev, skip)) == utf8.RuneCountInString(s)
}

//cv:decreases lemmaLongNumber
func lemmaLongNumberDec(s string, prev rune, skip int) int { return len(s) }

// Merging keeps the first characters.
//
//cv:lemma
func lemmaLongHead(s string, prev rune, skip int) {
	if s != "" {
		ch, n := utf8.DecodeRuneInString(s)
		lemmaLongHead(s[n:], ch, skip-1)
	}
}

//cv:props lemmaLongHead C19
//cv:ensures lemmaLongHead merging keeps the first characters
func lemmaLongHeadIs(s string, prev rune, skip int) bool {
	return specHead(specLong(s, prev, skip), skip) == specHead(s, skip)
}

//cv:decreases lemmaLongHead
func lemmaLongHeadDec(s string, prev rune, skip int) int { return len(s) }

// ---- tokens ----

//cv:props newTypewriter C20
//cv:props (*typewriter).Typewrite C20
//cv:props (*typewriter).scanMorpheme C20
//cv:props (*typewriter).read C20
//cv:props (*typewriter).unread C20
//cv:props interpretToken C20

//cv:immutable struct:tokenizer.Token
//cv:pure ext:(github.com/ikawaha/kagome.ipadic/tokenizer.Token).Features

//cv:ensures newTypewriter has read nothing yet
func newTw(tokens []kagome.Token, ret typewriter) bool {
	return cvEq(ret, typewriter{tokens, "", -1, illegal})
}

//cv:requires (*typewriter).Typewrite
func twPre(t typewriter) bool {
	return t.cur == -1 && t.lastCat == illegal && specAnalysed(t.tokens)
}

//cv:ensures (*typewriter).Typewrite assembles every token once
func typewritten(old_t typewriter, ret string) bool {
	return ret == specTypewrite(old_t.tokens, false)
}

//cv:modifies (*typewriter).Typewrite t.cur t.result t.lastCat
//cv:ensures (*typewriter).Typewrite keeps the text
func kept(t typewriter, ret string) bool { return t.cur != -1 && t.result == ret }

func specRest(t typewriter) []kagome.Token { return specFrom(t.tokens, t.cur+1) }

// specFrom is the list from a position on.
//
//cv:opaque
//cv:fuel 0
func specFrom(toks []kagome.Token, cur int) []kagome.Token {
	if cur >= len(toks) {
		return nil
	}
	if cur < 0 {
		return toks
	}
	return toks[cur:]
}

//cv:invariant (*typewriter).Typewrite
func typewriting(t, old_t typewriter, buf string) bool {
	lemmaSkip(specRest(t), t.lastCat == personName)
	return buf+specTypewrite(specRest(t), t.lastCat == personName) == specTypewrite(old_t.tokens, false)
}

//cv:invariant (*typewriter).Typewrite
func typewritingAnalysed(t typewriter) bool {
	return t.cur >= -1 && specAnalysed(specRest(t))
}

//cv:measure (*typewriter).Typewrite
func typewritingLeft(t typewriter) int { return len(specRest(t)) }

// specSkip drops the dummies at the head of a list.
//
//cv:fuel 0
func specSkip(toks []kagome.Token) []kagome.Token {
	if len(toks) == 0 {
		return nil
	}
	if specDummy(toks[0]) {
		return specSkip(toks[1:])
	}
	return toks
}

//cv:helper (*typewriter).read
//cv:requires (*typewriter).read
//cv:helper (*typewriter).scanMorpheme
//cv:requires (*typewriter).scanMorpheme
func readPre(t typewriter) bool { return t.cur >= -1 }

//cv:requires (*typewriter).scanMorpheme
func scanPre(t typewriter) bool { return specAnalysed(specRest(t)) }

//cv:modifies (*typewriter).read t.cur
//cv:ensures (*typewriter).read is the next token that is no dummy
func readNext(t, old_t typewriter, ret *kagome.Token) bool {
	lemmaSkip(specRest(old_t), false)
	r := specSkip(specRest(old_t))
	if len(r) == 0 {
		return ret == nil && t.cur >= len(t.tokens) && t.cur >= old_t.cur
	}
	return ret != nil && cvEq(*ret, r[0]) && t.cur > old_t.cur && t.cur < len(t.tokens) && cvEq(specFrom(t.tokens, t.cur), r)
}

//cv:ensures (*typewriter).read leaves what follows the token
func readRest(t, old_t typewriter, ret *kagome.Token) bool {
	r := specSkip(specRest(old_t))
	return len(r) == 0 || cvEq(specRest(t), r[1:])
}

//cv:invariant (*typewriter).read
func reading(t, old_t typewriter, tok *kagome.Token) bool {
	if tok == nil {
		return t.cur == old_t.cur
	}
	return t.cur > old_t.cur && t.cur < len(t.tokens) && cvEq(*tok, t.tokens[t.cur]) && cvEq(specSkip(t.tokens[t.cur:]), specSkip(specRest(old_t)))
}

//cv:measure (*typewriter).read
func readingLeft(t typewriter) int { return len(t.tokens) - t.cur }

//cv:helper (*typewriter).unread
//cv:modifies (*typewriter).unread t.cur
//cv:ensures (*typewriter).unread goes back by one
func unreadOne(t, old_t typewriter) bool { return t.cur == old_t.cur-1 }

//cv:helper interpretToken
//cv:requires interpretToken
func interpretPre(tok *kagome.Token) bool {
	return tok != nil && (tok.Class != kagome.KNOWN || len(tok.Features()) >= 9)
}

//cv:ensures interpretToken gives the pronunciation and the kind of the token
func interpreted(tok kagome.Token, ret0 string, ret1 category) bool {
	return ret0 == specPron(tok) && (ret1 == auxiliary) == specAuxiliary(tok) && (ret1 == personName) == specName(tok) &&
		(ret1 == unknown) == (tok.Class != kagome.KNOWN && strings.TrimSpace(tok.Surface) != "") && ret1 != illegal
}

//cv:modifies (*typewriter).scanMorpheme t.cur t.lastCat
//cv:ensures (*typewriter).scanMorpheme gives nothing at the end
func scannedEnd(t, old_t typewriter, ret1 string) bool {
	return len(specSkip(specRest(old_t))) > 0 || ret1 == "" && t.cur >= len(t.tokens)
}

//cv:ensures (*typewriter).scanMorpheme separates two names
func scannedSep(t, old_t typewriter, ret0 string) bool {
	r := specSkip(specRest(old_t))
	if len(r) > 0 && old_t.lastCat == personName && specName(r[0]) {
		return ret0 == " "
	}
	return ret0 == ""
}

//cv:ensures (*typewriter).scanMorpheme remembers a name
func scannedName(t, old_t typewriter) bool {
	r := specSkip(specRest(old_t))
	return len(r) == 0 || (t.lastCat == personName) == specName(r[0])
}

//cv:ensures (*typewriter).scanMorpheme assembles a token and its auxiliaries
func scannedText(t, old_t typewriter, ret1 string) bool {
	r := specSkip(specRest(old_t))
	if len(r) == 0 {
		return true
	}
	core := specCore(r[0])
	return ret1 == specLong(core+specAux(r[1:]), 0, utf8.RuneCountInString(core))
}

//cv:ensures (*typewriter).scanMorpheme gives something for a token
func scannedSome(t, old_t typewriter, ret1 string) bool {
	return len(specSkip(specRest(old_t))) == 0 || ret1 != ""
}

//cv:ensures (*typewriter).scanMorpheme leaves what follows
func scannedFollow(t, old_t typewriter) bool {
	lemmaSkip(specRest(old_t), false)
	r := specSkip(specRest(old_t))
	if len(r) == 0 {
		return true
	}
	lemmaAfter(r[1:])
	return cvEq(specRest(t), specAfter(r[1:])) && len(specAfter(r[1:])) < len(r)
}

//cv:ensures (*typewriter).scanMorpheme leaves a smaller rest
func scannedRest(t, old_t typewriter, ret1 string) bool {
	return t.cur > old_t.cur && specAnalysed(specRest(t)) && (ret1 == "" || len(specRest(t)) < len(specRest(old_t)))
}

//cv:invariant (*typewriter).scanMorpheme
func scanning(t, old_t typewriter, buf, pre_buf string) bool {
	lemmaSkip(specRest(old_t), false)
	lemmaSkip(specRest(t), false)
	r := specSkip(specRest(old_t))
	return t.cur > old_t.cur && len(r) > 0 && buf+specAux(specRest(t)) == pre_buf+specAux(r[1:]) && cvEq(specAfter(specRest(t)), specAfter(r[1:])) && specAnalysed(specRest(t))
}

//cv:measure (*typewriter).scanMorpheme
func scanningLeft(t typewriter) int { return len(specRest(t)) }

// What skipping dummies keeps.
//
//cv:lemma
func lemmaSkip(toks []kagome.Token, name bool) {
	if len(toks) > 0 {
		lemmaSkip(toks[1:], name)
	}
}

//cv:props lemmaSkip C20
//cv:ensures lemmaSkip skipping dummies keeps what is assembled
func lemmaSkipIs(toks []kagome.Token, name bool) bool {
	r := specSkip(toks)
	return (!specAnalysed(toks) || specAnalysed(r) && (len(r) == 0 || (r[0].Class != kagome.KNOWN || len(r[0].Features()) >= 9) && specPron(r[0]) != "")) && specTypewrite(toks, name) == specTypewrite(r, name) && specAux(toks) == specAux(r) &&
		cvEq(specAfter(toks), specAfter(r)) && len(r) <= len(toks) && (len(r) == 0 || !specDummy(r[0]))
}

//cv:decreases lemmaSkip
func lemmaSkipDec(toks []kagome.Token, name bool) int { return len(toks) }

// What follows the auxiliaries.
//
//cv:lemma
func lemmaAfter(toks []kagome.Token) {
	if len(toks) > 0 {
		lemmaAfter(toks[1:])
	}
}

//cv:props lemmaAfter C20
//cv:ensures lemmaAfter what follows the auxiliaries is a part of the list
func lemmaAfterIs(toks []kagome.Token) bool {
	return (!specAnalysed(toks) || specAnalysed(specAfter(toks))) && len(specAfter(toks)) <= len(toks)
}

//cv:decreases lemmaAfter
func lemmaAfterDec(toks []kagome.Token) int { return len(toks) }

func cvEq[T any](a, b T) bool { return true }
