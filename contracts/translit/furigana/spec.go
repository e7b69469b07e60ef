package furigana

import (
	kagome "github.com/ikawaha/kagome.ipadic/tokenizer"
	"strings"
	"unicode/utf8"
)

// ---- Iteration marks (property C18) ----

// The tables below are the canonical decompositions of the Unicode Character
// Database with U+3099 and U+309A.

// specHalfVoiced tells whether a kana has the half-voiced mark.
func specHalfVoiced(ch rune) bool {
	switch ch {
	case 'ぱ', 'ぴ', 'ぷ', 'ぺ', 'ぽ', 'パ', 'ピ', 'プ', 'ペ', 'ポ':
		return true
	}
	return false
}

// specSeion is the kana without a voicing mark.
func specSeion(ch rune) rune {
	switch ch {
	case 'が':
		return 'か'
	case 'ぎ':
		return 'き'
	case 'ぐ':
		return 'く'
	case 'げ':
		return 'け'
	case 'ご':
		return 'こ'
	case 'ざ':
		return 'さ'
	case 'じ':
		return 'し'
	case 'ず':
		return 'す'
	case 'ぜ':
		return 'せ'
	case 'ぞ':
		return 'そ'
	case 'だ':
		return 'た'
	case 'ぢ':
		return 'ち'
	case 'づ':
		return 'つ'
	case 'で':
		return 'て'
	case 'ど':
		return 'と'
	case 'ば':
		return 'は'
	case 'び':
		return 'ひ'
	case 'ぶ':
		return 'ふ'
	case 'べ':
		return 'へ'
	case 'ぼ':
		return 'ほ'
	case 'ゔ':
		return 'う'
	case 'ゞ':
		return 'ゝ'
	case 'ガ':
		return 'カ'
	case 'ギ':
		return 'キ'
	case 'グ':
		return 'ク'
	case 'ゲ':
		return 'ケ'
	case 'ゴ':
		return 'コ'
	case 'ザ':
		return 'サ'
	case 'ジ':
		return 'シ'
	case 'ズ':
		return 'ス'
	case 'ゼ':
		return 'セ'
	case 'ゾ':
		return 'ソ'
	case 'ダ':
		return 'タ'
	case 'ヂ':
		return 'チ'
	case 'ヅ':
		return 'ツ'
	case 'デ':
		return 'テ'
	case 'ド':
		return 'ト'
	case 'バ':
		return 'ハ'
	case 'ビ':
		return 'ヒ'
	case 'ブ':
		return 'フ'
	case 'ベ':
		return 'ヘ'
	case 'ボ':
		return 'ホ'
	case 'ヴ':
		return 'ウ'
	case 'ヷ':
		return 'ワ'
	case 'ヸ':
		return 'ヰ'
	case 'ヹ':
		return 'ヱ'
	case 'ヺ':
		return 'ヲ'
	case 'ヾ':
		return 'ヽ'
	case 'ぱ':
		return 'は'
	case 'ぴ':
		return 'ひ'
	case 'ぷ':
		return 'ふ'
	case 'ぺ':
		return 'へ'
	case 'ぽ':
		return 'ほ'
	case 'パ':
		return 'ハ'
	case 'ピ':
		return 'ヒ'
	case 'プ':
		return 'フ'
	case 'ペ':
		return 'ヘ'
	case 'ポ':
		return 'ホ'
	}
	return ch
}

// specDakuon is the kana with the voiced sound mark, where there is one.
func specDakuon(ch rune) rune {
	switch ch {
	case 'か':
		return 'が'
	case 'き':
		return 'ぎ'
	case 'く':
		return 'ぐ'
	case 'け':
		return 'げ'
	case 'こ':
		return 'ご'
	case 'さ':
		return 'ざ'
	case 'し':
		return 'じ'
	case 'す':
		return 'ず'
	case 'せ':
		return 'ぜ'
	case 'そ':
		return 'ぞ'
	case 'た':
		return 'だ'
	case 'ち':
		return 'ぢ'
	case 'つ':
		return 'づ'
	case 'て':
		return 'で'
	case 'と':
		return 'ど'
	case 'は':
		return 'ば'
	case 'ひ':
		return 'び'
	case 'ふ':
		return 'ぶ'
	case 'へ':
		return 'べ'
	case 'ほ':
		return 'ぼ'
	case 'う':
		return 'ゔ'
	case 'ゝ':
		return 'ゞ'
	case 'カ':
		return 'ガ'
	case 'キ':
		return 'ギ'
	case 'ク':
		return 'グ'
	case 'ケ':
		return 'ゲ'
	case 'コ':
		return 'ゴ'
	case 'サ':
		return 'ザ'
	case 'シ':
		return 'ジ'
	case 'ス':
		return 'ズ'
	case 'セ':
		return 'ゼ'
	case 'ソ':
		return 'ゾ'
	case 'タ':
		return 'ダ'
	case 'チ':
		return 'ヂ'
	case 'ツ':
		return 'ヅ'
	case 'テ':
		return 'デ'
	case 'ト':
		return 'ド'
	case 'ハ':
		return 'バ'
	case 'ヒ':
		return 'ビ'
	case 'フ':
		return 'ブ'
	case 'ヘ':
		return 'ベ'
	case 'ホ':
		return 'ボ'
	case 'ウ':
		return 'ヴ'
	case 'ワ':
		return 'ヷ'
	case 'ヰ':
		return 'ヸ'
	case 'ヱ':
		return 'ヹ'
	case 'ヲ':
		return 'ヺ'
	case 'ヽ':
		return 'ヾ'
	}
	return ch
}

func specHiragana(ch rune) bool { return 0x3040 <= ch && ch <= 0x309f }

func specKatakana(ch rune) bool { return 0x30a0 <= ch && ch <= 0x30ff }

// specResolve is what a character becomes after the last resolved one.
//
//cv:opaque
func specResolve(last, ch rune) rune {
	switch {
	case ch == 'ゝ' && specHiragana(last), ch == 'ヽ' && specKatakana(last):
		return specSeion(last)
	case ch == 'ゞ' && specHiragana(last), ch == 'ヾ' && specKatakana(last):
		return specDakuon(last)
	}
	return ch
}

// specRepeat resolves the marks of the rest of a text.
func specRepeat(s string, last rune) string {
	if s == "" {
		return ""
	}
	ch, n := utf8.DecodeRuneInString(s)
	c := specResolve(last, ch)
	return string(c) + specRepeat(s[n:], c)
}

// ---- Long vowels (property C19) ----

// specRow is what a vowel lengthens: its row, and the o row for u. The digraphs
// (ティ, トゥ) and チイ are no long vowels.
func specRow(vowel rune) string {
	switch vowel {
	case 'ァ', 'ア':
		return "ァアカガサザタダナハバパマャヤラヮワ"
	case 'ィ':
		return "ィイキギシジチヂニヒビピミリヰヸ" + "ェエケゲセゼネヘベペメレヱヹ"
	case 'イ':
		return "ィイキギシジニヒビピミリヰヸ"
	case 'ゥ':
		return "ゥウクグスズツヅヌフブプムュユルヴ" + "ォオコゴソゾノホボポモョヨロヲヺ"
	case 'ウ':
		return "ゥウクグスズツヅヌフブプムュユルヴ" + "ォオコゴソゾトドノホボポモョヨロヲヺ"
	case 'ェ', 'エ':
		return "ェエケゲセゼテデネヘベペメレヱヹ"
	case 'ォ', 'オ':
		return "ォオコゴソゾトドノホボポモョヨロヲヺ"
	}
	return ""
}

// specLengthens tells whether the vowel lengthens the character before it.
func specLengthens(vowel, before rune) bool {
	return strings.ContainsRune(specRow(vowel), before)
}

// specLong merges the long vowels of the rest of a text, but not in the next
// few characters.
func specLong(s string, prev rune, skip int) string {
	if s == "" {
		return ""
	}
	ch, n := utf8.DecodeRuneInString(s)
	if skip <= 0 && specLengthens(ch, prev) {
		return "ー" + specLong(s[n:], ch, skip-1)
	}
	return string(ch) + specLong(s[n:], ch, skip-1)
}

// specHead is the first n characters.
func specHead(s string, n int) string {
	if s == "" || n <= 0 {
		return ""
	}
	ch, w := utf8.DecodeRuneInString(s)
	return string(ch) + specHead(s[w:], n-1)
}

// ---- Tokens (property C20) ----

// specCore is the pronunciation of a token by itself.
//
//cv:opaque
//cv:fuel 0
func specPron(tok kagome.Token) string {
	if tok.Class != kagome.KNOWN {
		return tok.Surface
	}
	fs := tok.Features()
	if fs[0] == "助詞" && fs[6] == "は" {
		return "ハ"
	}
	if fs[0] == "助詞" && fs[6] == "へ" {
		return "ヘ"
	}
	return fs[8]
}

// specDummy tells whether a token is none of the text.
//
//cv:opaque
//cv:fuel 0
func specDummy(tok kagome.Token) bool { return tok.Class == kagome.DUMMY }

// specAuxiliary tells whether a token goes with the one before it.
//
//cv:opaque
//cv:fuel 0
func specAuxiliary(tok kagome.Token) bool {
	return tok.Class == kagome.KNOWN && tok.Features()[0] == "助動詞"
}

// specName tells whether a token is a personal name.
//
//cv:opaque
//cv:fuel 0
func specName(tok kagome.Token) bool {
	if tok.Class != kagome.KNOWN {
		return false
	}
	fs := tok.Features()
	switch fs[0] {
	case "フィラー", "記号", "助動詞", "助詞":
		return false
	}
	return fs[2] == "人名"
}

// specCore is the pronunciation of a token at the head of a group. The
// dictionary does not merge the long vowels of an unknown word.
//
//cv:opaque
//cv:fuel 0
func specCore(tok kagome.Token) string {
	if tok.Class != kagome.KNOWN && strings.TrimSpace(tok.Surface) != "" {
		return specLong(tok.Surface, 0, 0)
	}
	return specPron(tok)
}

// specAux is the pronunciation of the auxiliaries at the head of a list.
//
//cv:fuel 0
func specAux(toks []kagome.Token) string {
	if len(toks) == 0 {
		return ""
	}
	if specDummy(toks[0]) {
		return specAux(toks[1:])
	}
	if specAuxiliary(toks[0]) {
		return specPron(toks[0]) + specAux(toks[1:])
	}
	return ""
}

// specAfter is what follows the auxiliaries at the head of a list.
//
//cv:fuel 0
func specAfter(toks []kagome.Token) []kagome.Token {
	if len(toks) == 0 {
		return nil
	}
	if specDummy(toks[0]) || specAuxiliary(toks[0]) {
		return specAfter(toks[1:])
	}
	return toks
}

// specTypewrite is the pronunciation of the rest of a list, after a personal
// name or something else.
//
//cv:fuel 0
func specTypewrite(toks []kagome.Token, name bool) string {
	if len(toks) == 0 {
		return ""
	}
	if specDummy(toks[0]) {
		return specTypewrite(toks[1:], name)
	}
	tok := toks[0]
	core := specCore(tok)
	sep := ""
	if name && specName(tok) {
		sep = " "
	}
	group := sep + specLong(core+specAux(toks[1:]), 0, utf8.RuneCountInString(core))
	rest := specAfter(toks[1:])
	if len(rest) >= len(toks) {
		return group // never: lemmaAfter
	}
	return group + specTypewrite(rest, specName(tok))
}

// specAnalysed tells whether every token is as the analyser gives it: with a
// text, and known ones with the features of the dictionary.
//
//cv:fuel 0
func specAnalysed(toks []kagome.Token) bool {
	if len(toks) == 0 {
		return true
	}
	return (specDummy(toks[0]) || (toks[0].Class != kagome.KNOWN || len(toks[0].Features()) >= 9) && specPron(toks[0]) != "") && specAnalysed(toks[1:])
}
