package jamo

import (
	"bufio"
)

func cvRest(r *bufio.Reader) string { return "" }

//cv:props ComposeHangul C01

//cv:pure ext:github.com/suapapa/go_hangul.Join
//cv:pure ext:github.com/suapapa/go_hangul.Split
//cv:pure ext:github.com/suapapa/go_hangul.IsHangul
//cv:pure ext:github.com/suapapa/go_hangul.IsJaeum
//cv:pure ext:github.com/suapapa/go_hangul.IsMoeum

//cv:ensures ComposeHangul composes as specified
func composed(word, ret string) bool {
	return ret == specCompose(word, false, 0, 0, 0, 0)
}

// Between two letters, what is written followed by what the rest composes to
// is the result.
//
//cv:invariant ComposeHangul
func composing(c composer, score int, old_word string) bool {
	return c.buf.String()+specCompose(cvRest(c.r), false, c.lmt[lead], c.lmt[medial], c.lmt[tail], score) == specCompose(old_word, false, 0, 0, 0, 0)
}

// The same while hyphens are skipped.
//
//cv:invariant ComposeHangul
func composingTail(c composer, isTail bool, score int, old_word string) bool {
	return c.buf.String()+specCompose(cvRest(c.r), isTail, c.lmt[lead], c.lmt[medial], c.lmt[tail], score) == specCompose(old_word, false, 0, 0, 0, 0)
}

//cv:invariant ComposeHangul
func scoreRange(score int, c composer) bool {
	return 0 <= score && score <= 2 && (score >= 1 || c.lmt[medial] == 0) && (score >= 2 || c.lmt[tail] == 0)
}

//cv:measure ComposeHangul
func unread(c composer) int { return len(cvRest(c.r)) }

// ---- For the contracts of other packages ----

func CvCompose(word string) string { return specCompose(word, false, 0, 0, 0, 0) }
