From 9c267ce27dbd2898e483fde8496f9bff91aa0a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:24 +0000
Subject: [PATCH 01/22] fix: measure negative lookaround windows in letters,
 not bytes

RegexpMaxWidth counts letters but Find used it as a byte count, so a negative
lookaround on non-ASCII letters saw a truncated window. A lookbehind window
starting before the word was dropped entirely instead of being clamped.
---
 pkg/hre/pattern.go |  4 ++--
 pkg/hre/util.go    | 21 +++++++++++++++++++++
 2 files changed, 23 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 74c7e19..12f655d 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -227,7 +227,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negAWidth == -1 {
 				negAStop = len(word)
 			} else {
-				negAStop = m[lenM-4] + p.negAWidth
+				negAStop = advance(word, m[lenM-4], p.negAWidth)
 			}
 
 			if p.negA.MatchString(substr(word, negAStart, negAStop)) {
@@ -243,7 +243,7 @@ func (p *Pattern) Find(word string, n int) [][]int {
 			if p.negBWidth == -1 {
 				negBStart = 0
 			} else {
-				negBStart = m[5] - p.negBWidth
+				negBStart = retreat(word, m[5], p.negBWidth)
 			}
 
 			if p.negB.MatchString(substr(word, negBStart, negBStop)) {
diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 6949e9d..0643b0c 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -3,6 +3,7 @@ package hre
 import (
 	"regexp"
 	"strings"
+	"unicode/utf8"
 )
 
 // indexOf finds the index of the given value in a string array. It returns -1
@@ -37,6 +38,26 @@ func substr(s string, start int, stop int) string {
 	return ""
 }
 
+// advance moves the byte offset i forward by up to n letters in s. It stops at
+// the end of s. A negative offset, which means "not captured", is kept as is.
+func advance(s string, i int, n int) int {
+	for ; n > 0 && 0 <= i && i < len(s); n-- {
+		_, size := utf8.DecodeRuneInString(s[i:])
+		i += size
+	}
+	return i
+}
+
+// retreat moves the byte offset i backward by up to n letters in s. It stops at
+// the start of s. A negative offset is kept as is.
+func retreat(s string, i int, n int) int {
+	for ; n > 0 && i > 0; n-- {
+		_, size := utf8.DecodeLastRuneInString(s[:i])
+		i -= size
+	}
+	return i
+}
+
 // captured returns the captured substring by their group number.
 func captured(s string, m []int, n int) string {
 	i := n * 2
-- 
2.43.0


From e5249ecae554290a6598302abd3d270856fb5485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:16 +0000
Subject: [PATCH 02/22] fix: keep escaped and non-capturing parentheses in
 lookarounds

noCapture turned every '(' into '(?:', so an escaped '\(', a '(' in a character
class, and an already non-capturing '(?:' were corrupted in a lookaround.
---
 pkg/hre/util.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/util.go b/pkg/hre/util.go
index 0643b0c..d64a8f3 100644
--- a/pkg/hre/util.go
+++ b/pkg/hre/util.go
@@ -2,7 +2,6 @@ package hre
 
 import (
 	"regexp"
-	"strings"
 	"unicode/utf8"
 )
 
@@ -64,9 +63,19 @@ func captured(s string, m []int, n int) string {
 	return substr(s, m[i], m[i+1])
 }
 
+// reGroupOpen matches with an escaped letter, a character class, or an opening
+// parenthesis. An opening parenthesis of a capturing group is not followed by a
+// question mark.
+var reGroupOpen = regexp.MustCompile(`(?s)\\.|\[\^?\]?(?:\\.|[^\]\\])*\]|\(\??`)
+
 // noCapture removes capturing groups in a regexp string.
 func noCapture(expr string) string {
-	return strings.Replace(expr, "(", "(?:", -1)
+	return reGroupOpen.ReplaceAllStringFunc(expr, func(e string) string {
+		if e == "(" {
+			return "(?:"
+		}
+		return e
+	})
 }
 
 // -----------------------------------------------------------------------------
-- 
2.43.0


From 116642db19d5516e09467117d73b72914b23d2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:19 +0000
Subject: [PATCH 03/22] fix: report a bounded repetition of an unlimited regexp
 as unlimited

RegexpMaxWidth multiplied the unlimited marker -1 by the repetition count.
---
 pkg/hre/width.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/width.go b/pkg/hre/width.go
index 8153322..f75a1bc 100644
--- a/pkg/hre/width.go
+++ b/pkg/hre/width.go
@@ -54,7 +54,14 @@ func RegexpMaxWidth(re *syntax.Regexp) int {
 		if re.Max == -1 {
 			return -1
 		}
-		return re.Max * RegexpMaxWidth(re.Sub0[0])
+		if re.Max == 0 {
+			return 0
+		}
+		n := RegexpMaxWidth(re.Sub0[0])
+		if n == -1 {
+			return -1
+		}
+		return re.Max * n
 
 	case syntax.OpConcat:
 		// matches concatenation of Subs
-- 
2.43.0


From e0ea67894e8638fef3881c5fc599fee78c98758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 04/22] fix: return an error instead of panicking on an
 unmappable var

Interpolate indexed the destination var by -1 when the captured text is not one
of the source var values, divided by zero for an empty or undefined var, and
indexed out of the match when a var had no capturing group.
---
 pkg/hre/rpattern.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pkg/hre/rpattern.go b/pkg/hre/rpattern.go
index 42554b3..e8db8ee 100644
--- a/pkg/hre/rpattern.go
+++ b/pkg/hre/rpattern.go
@@ -111,15 +111,23 @@ func (rp *RPattern) Interpolate(
 
 		case toVar:
 			// var-to-var: <var> in Pattern to <var> in RPattern.
-			if varIndex > len(p.usedVars)-1 {
+			if varIndex > len(p.usedVars)-1 || (varIndex+1)*2+1 > len(m)-1 {
 				err := errors.New("mapped vars have different length")
 				return "", err
 			}
+			if len(part.usedVar) == 0 {
+				err := errors.Errorf("var has no values: %s", part.lit)
+				return "", err
+			}
 			fromVar := p.usedVars[varIndex]
 			fromVal := captured(word, m, varIndex+1)
 
 			// Find index of the matched character in the var.
 			i := indexOf(fromVal, fromVar)
+			if i == -1 {
+				err := errors.Errorf("%#v is not in the mapped var", fromVal)
+				return "", err
+			}
 			i = i % len(part.usedVar)
 
 			// Choose a replacement character at the same index.
-- 
2.43.0


From 172f67b93247bad758ce59a3e3c8f33490114fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 05/22] fix: map only captured vars of a pattern to the right
 side

Vars in a lookaround have no capturing group, but they were still counted when
pairing captured vars with the vars of the replacement.
---
 pkg/hre/assertions.go | 12 ++++++++++++
 pkg/hre/pattern.go    |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index dd2fb4e..6262fc1 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -75,6 +75,18 @@ func expandLookaround(expr string) (string, string, string, int, int, error) {
 	return posExpr, negAExpr, negBExpr, negAWidth, negBWidth, nil
 }
 
+// countLookaroundVars counts the vars in the lookbehind and the lookahead of an
+// expression of which vars are not expanded yet.
+func countLookaroundVars(expr string) (int, int) {
+	ahead := reLookahead.FindStringIndex(expr)
+	nAhead := len(reVar.FindAllString(expr[ahead[0]:], -1))
+
+	behind := reLookbehind.FindStringIndex(expr[:ahead[0]])
+	nBehind := len(reVar.FindAllString(expr[:behind[1]], -1))
+
+	return nBehind, nAhead
+}
+
 func dissolveLookaround(
 	format string,
 	lookExpr string,
diff --git a/pkg/hre/pattern.go b/pkg/hre/pattern.go
index 12f655d..a752929 100644
--- a/pkg/hre/pattern.go
+++ b/pkg/hre/pattern.go
@@ -73,7 +73,11 @@ func NewPattern(
 
 	reExpr = expandMacros(reExpr, macros)
 
+	// Vars in the lookarounds are not captured.
+	nBehindVars, nAheadVars := countLookaroundVars(reExpr)
+
 	reExpr, usedVars := expandVars(reExpr, vars)
+	usedVars = usedVars[nBehindVars : len(usedVars)-nAheadVars]
 
 	reExpr, negAExpr, negBExpr, negAWidth, negBWidth, err :=
 		expandLookaround(reExpr)
-- 
2.43.0


From 42ae701547b1b2bb30d9d0c73550713c1c977509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:22 +0000
Subject: [PATCH 06/22] fix: do not rewrite negated character classes and
 escaped edges

expandEdges treated the '^' in '[^a]', '\^' and '\$' as edges and injected an
alternation into them.
---
 pkg/hre/assertions.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/hre/assertions.go b/pkg/hre/assertions.go
index 6262fc1..54dfda0 100644
--- a/pkg/hre/assertions.go
+++ b/pkg/hre/assertions.go
@@ -8,10 +8,13 @@ import (
 
 var (
 	// ^^
-	reLeftEdge = re(`\^+`)
+	//
+	// An escaped letter and the opening of a negated character class are not an
+	// edge.
+	reLeftEdge = re(`\\.|\[\^|\^+`)
 
 	// $$
-	reRightEdge = re(`\$+`)
+	reRightEdge = re(`\\.|\$+`)
 
 	// {...}
 	//  └─┴─ (1)
@@ -212,6 +215,10 @@ func mustNoZeroWidth(expr string) error {
 
 func expandEdges(expr string) string {
 	expr = reLeftEdge.ReplaceAllStringFunc(expr, func(e string) string {
+		if e[0] != '^' {
+			// Not an edge.
+			return e
+		}
 		if e == `^` {
 			// "{}" is a zero-width space which is injected by an RPattern.
 			return `(?:^|\s+|{})`
@@ -220,6 +227,10 @@ func expandEdges(expr string) string {
 		return `^`
 	})
 	expr = reRightEdge.ReplaceAllStringFunc(expr, func(e string) string {
+		if e[0] != '$' {
+			// Not an edge.
+			return e
+		}
 		if e == `$` {
 			// "{}" is a zero-width space which is injected by an RPattern.
 			return `(?:$|\s+|{})`
-- 
2.43.0


From 3808f312aa87ca47350bb61f3dcb543733d37fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:25 +0000
Subject: [PATCH 07/22] fix: expand overlapping macros deterministically

The replacement order came from the map iteration order. When a macro is a
prefix of another, the compiled pattern differed from run to run.
---
 pkg/hre/macro.go | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/pkg/hre/macro.go b/pkg/hre/macro.go
index 43f67ae..d7f34fa 100644
--- a/pkg/hre/macro.go
+++ b/pkg/hre/macro.go
@@ -1,19 +1,28 @@
 package hre
 
 import (
+	"sort"
 	"strings"
 )
 
 // expandMacros replaces macro sources to corresponding targets.
 func expandMacros(expr string, macros map[string]string) string {
-	args := make([]string, len(macros)*2)
+	// strings.Replacer prefers the former one of overlapping sources. Sort them
+	// to prefer the longest one, regardless of the map iteration order.
+	srcs := make([]string, 0, len(macros))
+	for src := range macros {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
 
-	i := 0
-	for src, dst := range macros {
-		args[i] = src
-		i++
-		args[i] = dst
-		i++
+	args := make([]string, 0, len(macros)*2)
+	for _, src := range srcs {
+		args = append(args, src, macros[src])
 	}
 
 	rep := strings.NewReplacer(args...)
-- 
2.43.0


From 6dca8d71d1f0d4424769765bdd5712eaf8fb8eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:53 +0000
Subject: [PATCH 08/22] fix: keep every letter of a normalization target

The loop collecting the letters never advanced, so only the first letter of each
target in the "normalize" section was exempt from the script normalization.
---
 spec.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/spec.go b/spec.go
index 3a97367..cd2d867 100644
--- a/spec.go
+++ b/spec.go
@@ -6,7 +6,6 @@ import (
 	"io"
 	"strings"
 	"unicode"
-	"unicode/utf8"
 
 	"github.com/pkg/errors"
 
@@ -176,11 +175,8 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// letters in normalize
 	normLetters := make(map[rune]bool, len(normalize))
 	for to := range normalize {
-		more := len(to)
-		for more > 0 {
-			let, size := utf8.DecodeRuneInString(to)
+		for _, let := range to {
 			normLetters[let] = true
-			more -= size
 		}
 	}
 
-- 
2.43.0


From 83bdabfec10226629c642ed9f59ea4b3dbd1fd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:56 +0000
Subject: [PATCH 09/22] fix: apply overlapping normalizations deterministically

The replacement order came from the map iteration order.
---
 spec.go | 41 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 34 insertions(+), 7 deletions(-)

diff --git a/spec.go b/spec.go
index cd2d867..af2c639 100644
--- a/spec.go
+++ b/spec.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"sort"
 	"strings"
 	"unicode"
 
@@ -164,13 +165,7 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	puncts := collectPuncts(rewrite, transcribe)
 
 	// custom normalization
-	var args []string
-	for to, froms := range normalize {
-		for _, from := range froms {
-			args = append(args, from, to)
-		}
-	}
-	normReplacer := strings.NewReplacer(args...)
+	normReplacer := newNormReplacer(normalize)
 
 	// letters in normalize
 	normLetters := make(map[rune]bool, len(normalize))
@@ -296,6 +291,38 @@ func newRules(
 	return rules, nil
 }
 
+// -----------------------------------------------------------------------------
+// "normalize" section
+
+// newNormReplacer creates a replacer from the "normalize" section.
+// strings.Replacer prefers the former one of overlapping sources. So they are
+// sorted to prefer the longest one, regardless of the map iteration order.
+func newNormReplacer(normalize map[string][]string) *strings.Replacer {
+	var pairs [][2]string
+	for to, froms := range normalize {
+		for _, from := range froms {
+			pairs = append(pairs, [2]string{from, to})
+		}
+	}
+
+	sort.Slice(pairs, func(i, j int) bool {
+		a, b := pairs[i], pairs[j]
+		if len(a[0]) != len(b[0]) {
+			return len(a[0]) > len(b[0])
+		}
+		if a[0] != b[0] {
+			return a[0] < b[0]
+		}
+		return a[1] < b[1]
+	})
+
+	args := make([]string, 0, len(pairs)*2)
+	for _, pair := range pairs {
+		args = append(args, pair[0], pair[1])
+	}
+	return strings.NewReplacer(args...)
+}
+
 // -----------------------------------------------------------------------------
 
 // collectPuncts collects punctuation characters from rewrite/transcribe rules.
-- 
2.43.0


From 14c0715600c98c56ccfdef4d4593fc27b596915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:59 +0000
Subject: [PATCH 10/22] fix: transliterate multi-letter Cyrillic mappings
 deterministically

The replacement order came from the map iteration order, so "shch" was randomly
transliterated letter by letter.
---
 translit/cyrillic/cyrillic.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/translit/cyrillic/cyrillic.go b/translit/cyrillic/cyrillic.go
index 3d6e059..c369044 100644
--- a/translit/cyrillic/cyrillic.go
+++ b/translit/cyrillic/cyrillic.go
@@ -2,6 +2,7 @@ package cyrillic
 
 import (
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/hangulize/hangulize"
@@ -25,9 +26,22 @@ func mustNew(country string) hangulize.Translit {
 		panic(fmt.Errorf("cyrillic: invalid country: %s", country))
 	}
 
-	oldnew := make([]string, 0, len(mapping.ToCyrillic)*2)
-	for src, dst := range mapping.ToCyrillic {
-		oldnew = append(oldnew, src, dst)
+	// strings.Replacer prefers the former one of overlapping sources. Sort them
+	// to prefer the longest one, such as "shh" rather than "s".
+	srcs := make([]string, 0, len(mapping.ToCyrillic))
+	for src := range mapping.ToCyrillic {
+		srcs = append(srcs, src)
+	}
+	sort.Slice(srcs, func(i, j int) bool {
+		if len(srcs[i]) != len(srcs[j]) {
+			return len(srcs[i]) > len(srcs[j])
+		}
+		return srcs[i] < srcs[j]
+	})
+
+	oldnew := make([]string, 0, len(srcs)*2)
+	for _, src := range srcs {
+		oldnew = append(oldnew, src, mapping.ToCyrillic[src])
 	}
 	repl := strings.NewReplacer(oldnew...)
 
-- 
2.43.0


From 773c637371034e2568fe6c1a17b0390ef74ef54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:03 +0000
Subject: [PATCH 11/22] fix: decode the base letter of a Latin decomposition as
 a rune
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The first byte of the decomposition was used as the letter, so a letter of which
base is not ASCII, such as "ǿ", became an unrelated letter.
---
 internal/scripts/latn.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/scripts/latn.go b/internal/scripts/latn.go
index edfe7b9..03abaf7 100644
--- a/internal/scripts/latn.go
+++ b/internal/scripts/latn.go
@@ -2,6 +2,7 @@ package scripts
 
 import (
 	"unicode"
+	"unicode/utf8"
 
 	"golang.org/x/text/unicode/norm"
 )
@@ -23,7 +24,7 @@ func (Latn) Normalize(ch rune) rune {
 	props := norm.NFD.PropertiesString(string(ch))
 	bin := props.Decomposition()
 	if len(bin) != 0 {
-		ch = rune(bin[0])
+		ch, _ = utf8.DecodeRune(bin)
 	}
 	return unicode.ToLower(ch)
 }
-- 
2.43.0


From c1cf21cb12b8a19d5e59f016e6f58bc9f96dc09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:47 +0000
Subject: [PATCH 12/22] fix: reject an unterminated quoted string

The lexer appended to the string forever when the input ended in a quoted
string.
---
 pkg/hsl/lexer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 3ab27d5..24bccc4 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -154,6 +154,10 @@ func (l *lexer) scanQuotedString() (token, string) {
 	for {
 		ch := l.read()
 
+		if ch == eof {
+			return Illegal, "unterminated string"
+		}
+
 		if ch == '"' {
 			if escaped {
 				escaped = false
-- 
2.43.0


From a5cd2136593bb333b0413fd4ca8fddb5e65533dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:50 +0000
Subject: [PATCH 13/22] fix: keep letters after a backslash in a quoted string

Once a backslash was not followed by a quote, every letter up to the next quote
was dropped, and an escaped backslash was not supported.
---
 pkg/hsl/lexer.go | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 24bccc4..6cae873 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -158,21 +158,25 @@ func (l *lexer) scanQuotedString() (token, string) {
 			return Illegal, "unterminated string"
 		}
 
-		if ch == '"' {
-			if escaped {
-				escaped = false
-			} else {
-				break
+		if escaped {
+			escaped = false
+
+			// Only a quote and a backslash can be escaped. Otherwise, the
+			// backslash is a part of the string.
+			if ch != '"' && ch != '\\' {
+				buf.WriteRune('\\')
 			}
+			buf.WriteRune(ch)
+			continue
 		}
 
+		if ch == '"' {
+			break
+		}
 		if ch == '\\' {
 			escaped = true
 			continue
 		}
-		if escaped {
-			continue
-		}
 
 		buf.WriteRune(ch)
 	}
-- 
2.43.0


From c8703ff6627d877377b0e40e06b192cbfd40b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 14/22] fix: reject a hyphen which is not an arrow instead of
 panicking

---
 pkg/hsl/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index 6cae873..f224542 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -191,7 +191,7 @@ func (l *lexer) scanArrow() (token, string) {
 	second := l.read()
 
 	if first != '-' || second != '>' {
-		panic("not ->")
+		return Illegal, string(first)
 	}
 
 	return Arrow, "->"
-- 
2.43.0


From 36675bffe3b962394ad2fbf529e722bb366b4d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:56 +0000
Subject: [PATCH 15/22] fix: return an error for a duplicated key instead of
 panicking

---
 pkg/hsl/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 50a4fe4..df48191 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -100,7 +100,7 @@ func (p *parser) parse() (HSL, error) {
 			}
 
 			if err := section.addPair(lastString, values, line); err != nil {
-				panic(fmt.Errorf("failed to add pair: %w", err))
+				return nil, fmt.Errorf("failed to add pair: %w", err)
 			}
 
 			continue
-- 
2.43.0


From da068ef4524aad3cde0f635116c6bbce4514cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 16/22] fix: end the values of a pair at a trailing comment

A comment token consumes the newline, so the next pair was merged into the
values of the pair before the comment.
---
 pkg/hsl/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index df48191..073a9b5 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -122,7 +122,8 @@ func (p *parser) parseValues() ([]string, error) {
 		} else if tok == EOF {
 			break
 		} else if tok == Comment {
-			continue
+			// A comment consumes the end of the line.
+			break
 		}
 
 		// Collect strings in values.
-- 
2.43.0


From edd4820463bbfbbfe3caf96a067b839ce7cfcc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:35 +0000
Subject: [PATCH 17/22] fix: do not take a NUL letter for the end of an HSL
 source

Everything after a NUL letter was silently ignored.
---
 pkg/hsl/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index f224542..d4b096c 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -21,7 +21,8 @@ func newLexer(r io.Reader) *lexer {
 	return &lexer{bufio.NewReader(r), 1, 1}
 }
 
-const eof = rune(0)
+// eof is not a valid rune. A NUL in the source should not end the source.
+const eof = rune(-1)
 
 // Line returns the current line number.
 func (l lexer) Line() int {
@@ -202,7 +203,7 @@ func (l *lexer) Scan() (token, string) {
 	ch := l.read()
 
 	if ch == eof {
-		return EOF, string(eof)
+		return EOF, ""
 	}
 	if ch == '\n' {
 		return Newline, "\n"
-- 
2.43.0


From 01f2362b3e55747be9e3ce42d1fe8c73c91e285f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 18/22] fix: report an error of the reader when parsing HSL

A failing reader was taken for the end of the source, so a truncated result was
returned without an error.
---
 pkg/hsl/lexer.go  | 8 +++++++-
 pkg/hsl/parser.go | 4 ++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/pkg/hsl/lexer.go b/pkg/hsl/lexer.go
index d4b096c..2ec2fa7 100644
--- a/pkg/hsl/lexer.go
+++ b/pkg/hsl/lexer.go
@@ -14,11 +14,14 @@ type lexer struct {
 
 	line     int
 	prevLine int
+
+	// err is the error of the reader other than io.EOF.
+	err error
 }
 
 // newLexer creates a Lexer.
 func newLexer(r io.Reader) *lexer {
-	return &lexer{bufio.NewReader(r), 1, 1}
+	return &lexer{bufio.NewReader(r), 1, 1, nil}
 }
 
 // eof is not a valid rune. A NUL in the source should not end the source.
@@ -34,6 +37,9 @@ func (l *lexer) read() rune {
 	ch, _, err := l.r.ReadRune()
 
 	if err != nil {
+		if err != io.EOF {
+			l.err = err
+		}
 		return eof
 	}
 
diff --git a/pkg/hsl/parser.go b/pkg/hsl/parser.go
index 073a9b5..e9e3a54 100644
--- a/pkg/hsl/parser.go
+++ b/pkg/hsl/parser.go
@@ -107,6 +107,10 @@ func (p *parser) parse() (HSL, error) {
 		}
 	}
 
+	if p.lexer.err != nil {
+		return nil, fmt.Errorf("read: %w", p.lexer.err)
+	}
+
 	return hsl, nil
 }
 
-- 
2.43.0


From 61e7975900164065f9291de1f603a4a01e879747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:59 +0000
Subject: [PATCH 19/22] fix: return an error for a malformed section in a spec
 instead of panicking

ParseSpec panicked when a section was of the wrong kind or when a rule or a test
example had no right value.
---
 spec.go | 77 +++++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 69 insertions(+), 8 deletions(-)

diff --git a/spec.go b/spec.go
index af2c639..3162cad 100644
--- a/spec.go
+++ b/spec.go
@@ -76,7 +76,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var lang Language
 
 	if sec, ok := h["lang"]; ok {
-		_lang, err := newLanguage(sec.(*hsl.DictSection))
+		dict, err := dictSection("lang", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_lang, err := newLanguage(dict)
 
 		if err != nil {
 			return nil, err
@@ -89,7 +94,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var config Config
 
 	if sec, ok := h["config"]; ok {
-		_config, err := newConfig(sec.(*hsl.DictSection))
+		dict, err := dictSection("config", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		_config, err := newConfig(dict)
 
 		if err != nil {
 			return nil, err
@@ -102,7 +112,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	var macros map[string]string
 
 	if sec, ok := h["macros"]; ok {
-		macros, err = sec.(*hsl.DictSection).Injective()
+		dict, err := dictSection("macros", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		macros, err = dict.Injective()
 
 		if err != nil {
 			return nil, err
@@ -112,19 +127,32 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// vars
 	var vars map[string][]string
 	if sec, ok := h["vars"]; ok {
-		vars = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("vars", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		vars = dict.Map()
 	}
 
 	// normalize
 	var normalize map[string][]string
 	if sec, ok := h["normalize"]; ok {
-		normalize = sec.(*hsl.DictSection).Map()
+		dict, err := dictSection("normalize", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		normalize = dict.Map()
 	}
 
 	// rewrite
 	var rewritePairs []hsl.Pair
 	if sec, ok := h["rewrite"]; ok {
-		rewritePairs = sec.(*hsl.ListSection).Pairs()
+		rewritePairs, err = listPairs("rewrite", sec)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	rewrite, err := newRules(rewritePairs, macros, vars)
@@ -135,7 +163,10 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// transcribe
 	var transcribePairs []hsl.Pair
 	if sec, ok := h["transcribe"]; ok {
-		transcribePairs = sec.(*hsl.ListSection).Pairs()
+		transcribePairs, err = listPairs("transcribe", sec)
+		if err != nil {
+			return nil, err
+		}
 	}
 
 	transcribe, err := newRules(transcribePairs, macros, vars)
@@ -146,7 +177,12 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	// test
 	var test [][2]string
 	if sec, ok := h["test"]; ok {
-		for _, pair := range sec.(*hsl.ListSection).Pairs() {
+		pairs, err := listPairs("test", sec)
+		if err != nil {
+			return nil, err
+		}
+
+		for _, pair := range pairs {
 			word := pair.Left()
 			result := pair.Right()[0]
 
@@ -201,6 +237,31 @@ func ParseSpec(r io.Reader) (*Spec, error) {
 	return &spec, nil
 }
 
+// dictSection asserts that the section is a dict section.
+func dictSection(name string, sec hsl.Section) (*hsl.DictSection, error) {
+	dict, ok := sec.(*hsl.DictSection)
+	if !ok {
+		return nil, errors.Errorf("%s must be a dict section", name)
+	}
+	return dict, nil
+}
+
+// listPairs asserts that the section is a list section of which every pair has
+// a right value.
+func listPairs(name string, sec hsl.Section) ([]hsl.Pair, error) {
+	list, ok := sec.(*hsl.ListSection)
+	if !ok {
+		return nil, errors.Errorf("%s must be a list section", name)
+	}
+
+	for _, pair := range list.Pairs() {
+		if len(pair.Right()) == 0 {
+			return nil, errors.Errorf("%#v has no value in %s", pair.Left(), name)
+		}
+	}
+	return list.Pairs(), nil
+}
+
 // -----------------------------------------------------------------------------
 // "lang" section
 
-- 
2.43.0


From 837fcd6f64490a2ba7c26eda4bbebb26e10a3d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 20/22] fix: hangulize the last line of stdin without a newline

---
 cmd/hangulize/main.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cmd/hangulize/main.go b/cmd/hangulize/main.go
index 4376230..9d05bc8 100644
--- a/cmd/hangulize/main.go
+++ b/cmd/hangulize/main.go
@@ -84,10 +84,14 @@ func readWords(ch chan<- string, args []string) {
 		reader := bufio.NewReader(os.Stdin)
 		for {
 			word, err := reader.ReadString('\n')
+			word = strings.TrimSpace(word)
 			if err != nil {
+				// The last line may not end with a newline.
+				if word != "" {
+					ch <- word
+				}
 				break
 			}
-			word = strings.TrimSpace(word)
 			ch <- word
 		}
 	} else {
-- 
2.43.0


From a3a1cd18f3946c9949490de35808c1bbff48fc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:12 +0000
Subject: [PATCH 21/22] fix: keep the bytes of a replaced word when splitting
 it into subwords

---
 internal/subword/replace.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/subword/replace.go b/internal/subword/replace.go
index 904b54c..73fc185 100644
--- a/internal/subword/replace.go
+++ b/internal/subword/replace.go
@@ -110,13 +110,13 @@ func (r *Replacer) Subwords() []Subword {
 
 	var buf bytes.Buffer
 
-	for i, ch := range r.word {
+	for i := 0; i < len(r.word); i++ {
 		if r.levels[i] != level {
 			subwords = append(subwords, New(buf.String(), level))
 			level = r.levels[i]
 			buf.Reset()
 		}
-		buf.WriteRune(ch)
+		buf.WriteByte(r.word[i])
 	}
 	subwords = append(subwords, New(buf.String(), level))
 
-- 
2.43.0


From fbfe0508d9aac6f714b7bb617eccaeeaeb2b7efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:20 +0000
Subject: [PATCH 22/22] fix: do not transcribe twice what a wildcard matches in
 the mask

---
 procedure.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/procedure.go b/procedure.go
index 112846f..57a9e60 100644
--- a/procedure.go
+++ b/procedure.go
@@ -193,7 +193,16 @@ func (p procedure) transcribe(subwords []subword.Subword) []subword.Subword {
 		dummy := subword.NewReplacer(word, 0, 0)
 
 		for _, rule := range p.spec.Transcribe {
-			repls := rule.replacements(word)
+			var repls []subword.Replacement
+
+			for _, repl := range rule.replacements(word) {
+				// A pattern such as "." also matches the mask. Leave there
+				// what has been already transcribed.
+				if !strings.Contains(word[repl.Start:repl.Stop], "\x00") {
+					repls = append(repls, repl)
+				}
+			}
+
 			rep.ReplaceBy(repls...)
 
 			for _, repl := range repls {
-- 
2.43.0

