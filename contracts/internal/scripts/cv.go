package scripts

import "unicode"

//cv:props (Hrkt).LocalizePunct C13
//cv:ensures (Hrkt).LocalizePunct gives the Korean form
func hrktPunct(punct rune, ret string) bool { return ret == specPunct(punct) }

//cv:props (Latn).LocalizePunct C13
//cv:ensures (Latn).LocalizePunct keeps the punctuation
func latnPunct(punct rune, ret string) bool { return ret == string(punct) }

//cv:props (Cyrl).LocalizePunct C13
//cv:ensures (Cyrl).LocalizePunct keeps the punctuation
func cyrlPunct(punct rune, ret string) bool { return ret == string(punct) }

//cv:props (Grek).LocalizePunct C13
//cv:ensures (Grek).LocalizePunct keeps the punctuation
func grekPunct(punct rune, ret string) bool { return ret == string(punct) }

//cv:props (Geor).LocalizePunct C13
//cv:ensures (Geor).LocalizePunct keeps the punctuation
func georPunct(punct rune, ret string) bool { return ret == string(punct) }

var _ = unicode.Is

// ---- Normal forms ----

//cv:pure ext:(golang.org/x/text/unicode/norm.Form).PropertiesString
//cv:pure ext:(golang.org/x/text/unicode/norm.Properties).Decomposition

//cv:props (Hrkt).Is C11
//cv:ensures (Hrkt).Is knows the kana
func hrktIs(ch rune, ret bool) bool { return ret == specIsKana(ch) }

//cv:props (Hrkt).Normalize C11
//cv:ensures (Hrkt).Normalize gives the Katakana
func hrktNormal(ch, ret rune) bool { return ret == specKatakana(ch) }

//cv:props (Latn).Is C11
//cv:ensures (Latn).Is knows the Latin letters
func latnIs(ch rune, ret bool) bool { return ret == unicode.Is(unicode.Latin, ch) }

//cv:props (Latn).Normalize C11
//cv:ensures (Latn).Normalize gives the lower-cased base letter
func latnNormal(old_ch, ret rune) bool { return ret == specLatin(old_ch) }

//cv:props (Cyrl).Is C11
//cv:ensures (Cyrl).Is knows the Cyrillic letters and the marks
func cyrlIs(ch rune, ret bool) bool { return ret == (unicode.Is(unicode.Cyrillic, ch) || unicode.IsMark(ch)) }

//cv:props (Cyrl).Normalize C11
//cv:ensures (Cyrl).Normalize gives the lower case
func cyrlNormal(ch, ret rune) bool { return ret == unicode.ToLower(ch) }

//cv:props (Grek).Is C11
//cv:ensures (Grek).Is knows the Greek letters
func grekIs(ch rune, ret bool) bool { return ret == unicode.Is(unicode.Greek, ch) }

//cv:props (Grek).Normalize C11
//cv:ensures (Grek).Normalize gives the lower case
func grekNormal(ch, ret rune) bool { return ret == unicode.ToLower(ch) }

//cv:props (Geor).Is C11
//cv:ensures (Geor).Is knows the Georgian letters
func georIs(ch rune, ret bool) bool { return ret == unicode.Is(unicode.Georgian, ch) }

//cv:props (Geor).Normalize C11
//cv:ensures (Geor).Normalize keeps the letter
func georNormal(ch, ret rune) bool { return ret == ch }
